%token '('
%token '*'
%token '&'
%token T_IDENTIFIER
%token T_TYPEDEF_NAME
%token T_DEFINE_NAME
%token T_AUTO
%token T_EXTERN
%token T_REGISTER
%token T_STATIC
%token T_TYPEDEF
%token T_INLINE
%token T_EXTENSION
%token T_CHAR
%token T_DOUBLE
%token T_FLOAT
%token T_INT
%token T_VOID
%token T_LONG
%token T_SHORT
%token T_SIGNED
%token T_UNSIGNED
%token T_ENUM
%token T_STRUCT
%token T_UNION
%token T_Bool
%token T_Complex
%token T_Imaginary
%token T_TYPE_QUALIFIER
%token T_BRACKETS
%token T_LBRACE
%token T_MATCHRBRACE
%token T_ELLIPSIS
%token T_INITIALIZER
%token T_STRING_LITERAL
%token T_ASM
%token T_ASMARG
%token T_VA_DCL
%token ';'
%token ','
%token '='
%token ')'
%start program
%%
program :
	| translation_unit
	;
translation_unit :
	 external_declaration
	| translation_unit external_declaration
	;
external_declaration :
	 declaration
	| function_definition
	| ';'
	| linkage_specification
	| T_ASM T_ASMARG ';'
	| error T_MATCHRBRACE
	| error ';'
	;
braces :
	 T_LBRACE T_MATCHRBRACE
	;
linkage_specification :
	 T_EXTERN T_STRING_LITERAL braces
	| T_EXTERN T_STRING_LITERAL declaration
	;
declaration :
	 decl_specifiers ';'
	| decl_specifiers init_declarator_list ';'
	;
declaration :
	 any_typedef decl_specifiers opt_declarator_list ';'
	;
any_typedef :
	 T_EXTENSION T_TYPEDEF
	| T_TYPEDEF
	;
opt_declarator_list :
	| declarator_list
	;
declarator_list :
	 declarator
	| declarator_list ',' declarator
	;
function_definition :
	 decl_specifiers declarator opt_declaration_list T_LBRACE T_MATCHRBRACE
	;
function_definition :
	 declarator opt_declaration_list T_LBRACE T_MATCHRBRACE
	;
opt_declaration_list :
	| T_VA_DCL
	| declaration_list
	;
declaration_list :
	 declaration
	| declaration_list declaration
	;
decl_specifiers :
	 decl_specifier
	| decl_specifiers decl_specifier
	;
decl_specifier :
	 storage_class
	| type_specifier
	| type_qualifier
	;
storage_class :
	 T_AUTO
	| T_EXTERN
	| T_REGISTER
	| T_STATIC
	| T_INLINE
	| T_EXTENSION
	;
type_specifier :
	 T_CHAR
	| T_DOUBLE
	| T_FLOAT
	| T_INT
	| T_LONG
	| T_SHORT
	| T_SIGNED
	| T_UNSIGNED
	| T_VOID
	| T_Bool
	| T_Complex
	| T_Imaginary
	| T_TYPEDEF_NAME
	| struct_or_union_specifier
	| enum_specifier
	;
type_qualifier :
	 T_TYPE_QUALIFIER
	| T_DEFINE_NAME
	;
struct_or_union_specifier :
	 struct_or_union any_id braces
	| struct_or_union braces
	| struct_or_union any_id
	;
struct_or_union :
	 T_STRUCT
	| T_UNION
	;
init_declarator_list :
	 init_declarator
	| init_declarator_list ',' init_declarator
	;
init_declarator :
	 declarator
	;
init_declarator :
	 declarator '=' T_INITIALIZER
	;
enum_specifier :
	 enumeration any_id braces
	| enumeration braces
	| enumeration any_id
	;
enumeration :
	 T_ENUM
	;
any_id :
	 T_IDENTIFIER
	| T_TYPEDEF_NAME
	;
declarator :
	 pointer direct_declarator
	| direct_declarator
	;
direct_declarator :
	 identifier_or_ref
	| '(' declarator ')'
	| direct_declarator T_BRACKETS
	| direct_declarator '(' parameter_type_list ')'
	| direct_declarator '(' opt_identifier_list ')'
	;
pointer :
	 '*' opt_type_qualifiers
	| '*' opt_type_qualifiers pointer
	;
opt_type_qualifiers :
	| type_qualifier_list
	;
type_qualifier_list :
	 type_qualifier
	| type_qualifier_list type_qualifier
	;
parameter_type_list :
	 parameter_list
	| parameter_list ',' T_ELLIPSIS
	;
parameter_list :
	 parameter_declaration
	| parameter_list ',' parameter_declaration
	;
parameter_declaration :
	 decl_specifiers declarator
	| decl_specifiers abs_declarator
	| decl_specifiers
	;
opt_identifier_list :
	| identifier_list
	;
identifier_list :
	 any_id
	| identifier_list ',' any_id
	;
identifier_or_ref :
	 any_id
	| '&' any_id
	;
abs_declarator :
	 pointer
	| pointer direct_abs_declarator
	| direct_abs_declarator
	;
direct_abs_declarator :
	 '(' abs_declarator ')'
	| direct_abs_declarator T_BRACKETS
	| T_BRACKETS
	| direct_abs_declarator '(' parameter_type_list ')'
	| direct_abs_declarator '(' ')'
	| '(' parameter_type_list ')'
	| '(' ')'
	;
