%start S
%%
S :
	 error
	;
