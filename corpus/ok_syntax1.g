%token DIGIT
%token LETTER
%token OCT1
%token '\177'
%token HEX1
%token '\377'
%token HEX2
%token HEX3
%token STR1
%token "\177\177\\\n"
%token STR2
%token BELL
%token '\a'
%token BS
%token '\b'
%token NL
%token '\n'
%token LF
%token '\f'
%token CR
%token '\r'
%token TAB
%token '\t'
%token VT
%token '\v'
%token '@'
%token '~'
%token '^'
%token '#'
%token '|'
%token '&'
%token '+'
%token '-'
%token '*'
%token '/'
%token '%'
%token UMINUS
%token '='
%token '('
%token ')'
%nonassoc   '~'
%right   '^'
%left   '#'
%left   '|'
%left   '&'
%left   '+' '-'
%left   '*' '/' '%'
%left   UMINUS
%start list
%%
list :
	| list stat '\n'
	| list error '\n'
	;
stat :
	 expr
	| LETTER '=' expr
	;
expr :
	 '(' expr ')'
	| expr '+'   expr
	| expr '-'   expr
	| expr '*'   expr
	| expr '/'   expr
	| expr '%'   expr
	| expr '&'   expr
	| expr '|'   expr
	| '-'   expr %prec UMINUS  
	| LETTER
	| number
	;
number :
	 DIGIT
	| number DIGIT
	;
