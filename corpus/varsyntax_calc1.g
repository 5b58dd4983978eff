%token DREG
%token VREG
%token CONST
%token '+'
%token '-'
%token '*'
%token '/'
%token UMINUS
%token '\n'
%token '='
%token '('
%token ')'
%token ','
%left   '+' '-'
%left   '*' '/'
%right   UMINUS
%start line
%%
lines :
	| lines line
	;
line :
	 dexp '\n'
	| vexp '\n'
	| DREG '=' dexp '\n'
	| VREG '=' vexp '\n'
	| error '\n'
	;
dexp :
	 CONST
	| DREG
	| dexp '+'   dexp
	| dexp '-'   dexp
	| dexp '*'   dexp
	| dexp '/'   dexp
	| '-'   dexp %prec UMINUS  
	| '(' dexp ')'
	;
vexp :
	 dexp
	| '(' dexp ',' dexp ')'
	| VREG
	| vexp '+'   vexp
	| dexp '+'   vexp
	| vexp '-'   vexp
	| dexp '-'   vexp
	| vexp '*'   vexp
	| dexp '*'   vexp
	| vexp '/'   vexp
	| dexp '/'   vexp
	| '-'   vexp %prec UMINUS  
	| '(' vexp ')'
	;
