visitor! {
    Program, enter_program, exit_program;
    Expr, enter_expr, exit_expr;
    Stmt, enter_stmt, exit_stmt;
    BindingPattern, enter_binding_pattern, exit_binding_pattern;
    Literal, enter_literal, exit_literal;
    LitNumber, enter_number_literal, exit_number_literal;
    TemplatePart, enter_template_part, exit_template_part;
    ObjectBindingProp, enter_object_binding_prop, exit_object_binding_prop;
    PropertyName, enter_property_name, exit_property_name;
    ClassElement, enter_class_element, exit_class_element;
    ForInit, enter_for_init, exit_for_init;
    ForDeclaration, enter_for_declaration, exit_for_declaration;
    Callee, enter_callee, exit_callee;
    Argument, enter_argument, exit_argument;
    MemberObject, enter_member_object, exit_member_object;
    Super, enter_super, exit_super;
    MemberProperty, enter_member_property, exit_member_property;
    ArrayElement, enter_array_element, exit_array_element;
    ArrowFunctionBody, enter_arrow_function_body, exit_arrow_function_body;
    PropertyDefinition, enter_property_definition, exit_property_definition;
    BinaryOperator, enter_binary_operator, exit_binary_operator;
    LogicalOperator, enter_logical_operator, exit_logical_operator;
    AssignmentOperator, enter_assignment_operator, exit_assignment_operator;
    UnaryOperator, enter_unary_operator, exit_unary_operator;
    UpdateOperator, enter_update_operator, exit_update_operator;
    DeclExport, enter_export, exit_export;
    PatternOrExpr, enter_pattern_or_expr, exit_pattern_or_expr;
    AssignmentPattern, enter_assignment_pattern, exit_assignment_pattern;
    AssignmentProp, enter_assignment_prop, exit_assignment_prop;
    DeclFunction, enter_function_decl, exit_function_decl;
    DeclClass, enter_class_decl, exit_class_decl;
    DeclImport, enter_import, exit_import;
    StmtExpr, enter_stmt_expr, exit_stmt_expr;
    StmtBlock, enter_block_stmt, exit_block_stmt;
    ExprBinary, enter_binary_expr, exit_binary_expr;
    ExprLogical, enter_logical_expr, exit_logical_expr;
    ExprUnary, enter_unary_expr, exit_unary_expr;
    ExprCall, enter_call_expr, exit_call_expr;
    ExprMember, enter_member_expr, exit_member_expr;
    ExprOptionalMember, enter_optional_member_expr, exit_optional_member_expr;
    ExprOptionalCall, enter_optional_call_expr, exit_optional_call_expr;
    ExprParenthesized, enter_parenthesized_expr, exit_parenthesized_expr;
    ExprLiteral, enter_literal_expr, exit_literal_expr;
    ExprAssignment, enter_assignment_expr, exit_assignment_expr;
    ExprYield, enter_yield_expr, exit_yield_expr;
    ExprConditional, enter_conditional_expr, exit_conditional_expr;
    ExprUpdate, enter_update_expr, exit_update_expr;
    ExprSequence, enter_sequence_expr, exit_sequence_expr;
    ExprThis, enter_this_expr, exit_this_expr;
    ExprFunction, enter_function_expr, exit_function_expr;
    ExprNew, enter_new_expr, exit_new_expr;
    ExprArrowFunction, enter_arrow_function, exit_arrow_function;
    ExprAwait, enter_await_expr, exit_await_expr;
    ExprMetaProperty, enter_meta_property, exit_meta_property;
    ExprClass, enter_class_expr, exit_class_expr;
    StmtReturn, enter_return_stmt, exit_return_stmt;
    StmtVariable, enter_variable_stmt, exit_variable_stmt;
    StmtEmpty, enter_empty_statement, exit_empty_statement;
    StmtTry, enter_try_stmt, exit_try_stmt;
    StmtDebugger, enter_debugger_stmt, exit_debugger_stmt;
    StmtThrow, enter_throw_stmt, exit_throw_stmt;
    StmtLabeled, enter_labeled_stmt, exit_labeled_stmt;
    StmtWith, enter_with_stmt, exit_with_stmt;
    StmtContinue, enter_continue_stmt, exit_continue_stmt;
    StmtBreak, enter_break_stmt, exit_break_stmt;
    StmtSwitch, enter_switch_stmt, exit_switch_stmt;
    StmtIf, enter_if_stmt, exit_if_stmt;
    StmtFor, enter_for_stmt, exit_for_stmt;
    StmtForOf, enter_for_of_stmt, exit_for_of_stmt;
    StmtForIn, enter_for_in_stmt, exit_for_in_stmt;
    StmtWhile, enter_while_stmt, exit_while_stmt;
    StmtDoWhile, enter_do_while_stmt, exit_do_while_stmt;
    StmtList<Stmt>, enter_stmt_list, exit_stmt_list;
    BindingElement, enter_binding_element, exit_binding_element;
    FormalParameters, enter_formal_parameters, exit_formal_parameters;
    VariableDeclaration, enter_variable_declaration, exit_variable_declaration;
    LitString, enter_string_literal, exit_string_literal;
    LitTemplate, enter_template_literal, exit_template_literal;
    LitArray, enter_array_literal, exit_array_literal;
    LitObject, enter_object_literal, exit_object_literal;
    ArrayBinding, enter_array_binding, exit_array_binding;
    ObjectBinding, enter_object_binding, exit_object_binding;
    SingleNameBinding, enter_single_name_binding, exit_single_name_binding;
    NamedBinding, enter_named_binding, exit_named_binding;
    NamedProperty, enter_named_property, exit_named_property;
    MethodDefinition, enter_method_definition, exit_method_definition;
    CatchClause, enter_catch_clause, exit_catch_clause;
    SwitchCase, enter_switch_case, exit_switch_case;
    ExportDecl, enter_export_decl, exit_export_decl;
    ExportDefaultDecl, enter_export_default_decl, exit_export_default_decl;
    ExportDefaultExpr, enter_export_default_expr, exit_export_default_expr;
    ExprTaggedTemplate, enter_tagged_template_expr, exit_tagged_template_expr;
    ExportNamed, enter_export_named, exit_export_named;
    ExportNamespace, enter_export_namespace, exit_export_namespace;
    NamedExport, enter_named_export, exit_named_export;
    NamedImport, enter_named_import, exit_named_import;
    ArrayAssignmentPattern, enter_array_assignment_pattern, exit_array_assignment_pattern;
    AssignmentElement, enter_assignment_element, exit_assignment_element;
    ObjectAssignmentPattern, enter_object_assignment_pattern, exit_object_assignment_pattern;
    SingleNameAssignmentProp, enter_single_name_assignment_prop, exit_single_name_assignment_prop;
    NamedAssignmentProp, enter_named_assignment_prop, exit_named_assignment_prop;
    Ident, enter_ident, exit_ident;
    Body, enter_body, exit_body;
    ForBinding, enter_for_binding, exit_for_binding;
}
