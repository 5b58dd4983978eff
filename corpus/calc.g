%token DIGIT
%token LETTER
%token '|'
%token '&'
%token '+'
%token '-'
%token '*'
%token '/'
%token '%'
%token UMINUS
%token '\n'
%token '='
%token '('
%token ')'
%left   '|'
%left   '&'
%left   '+' '-'
%left   '*' '/' '%'
%left   UMINUS
%start list
%%
list :
	| list stat '\n'
	| list error '\n'
	;
stat :
	 expr
	| LETTER '=' expr
	;
expr :
	 '(' expr ')'
	| expr '+'   expr
	| expr '-'   expr
	| expr '*'   expr
	| expr '/'   expr
	| expr '%'   expr
	| expr '&'   expr
	| expr '|'   expr
	| '-'   expr %prec UMINUS  
	| LETTER
	| number
	;
number :
	 DIGIT
	| number DIGIT
	;
