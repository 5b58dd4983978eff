%token GLOBAL
%token LOCAL
%token REAL
%token INTEGER
%token NAME
%start declaration
%%
declaration :
	 class type namelist
	| type locnamelist
	;
class :
	 GLOBAL
	| LOCAL
	;
type :
	 REAL
	| INTEGER
	;
namelist :
	 namelist NAME
	| NAME
	;
locnamelist :
	 namelist
	;
