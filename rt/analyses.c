/* Runs wcc's own control flow, dataflow and register allocation code on functions and prints what it computes.
   Input on stdin: "ir ID" followed by one instruction per line ("label op dst src1 src2") and "end", or
   "c FILE" naming a preprocessed C file, all of whose functions are analysed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "wcc.h"

static struct { char *name; int op; } ops[] = {
    {"nop", IR_NOP}, {"move", IR_MOVE}, {"add", IR_ADD}, {"sub", IR_SUB}, {"mul", IR_MUL}, {"and", IR_BAND}, {"or", IR_BOR},
    {"xor", IR_XOR}, {"lt", IR_LT}, {"eq", IR_EQ}, {"jz", IR_JZ}, {"jnz", IR_JNZ}, {"jmp", IR_JMP}, {"ret", IR_RETURN},
    {"out", IR_MOVE_TO_PTR}, {"phi", IR_PHI_FUNCTION}, {"shl", IR_BSHL}, {"loop", IR_START_LOOP}, {"endloop", IR_END_LOOP}, {"shr", IR_BSHR}, {"div", IR_DIV}, {"mod", IR_MOD}, {0, 0}
};

static int is_conditional(int op) {
    return op == IR_JZ || op == IR_JNZ || op == X_JZ || op == X_JNZ || op == X_JE || op == X_JNE || op == X_JGT || op == X_JLT ||
        op == X_JGE || op == X_JLE || op == X_JB || op == X_JA || op == X_JBE || op == X_JAE;
}

static void show_value(Value *v) {
    if (!v) { printf(" -"); return; }
    if (v->vreg) {
        int sse = v->type && is_sse_floating_point_type(v->type);
        printf(" v%d:%d:%c:%d:%d:%d", v->vreg, v->ssa_subscript, sse ? 's' : 'i', v->spilled ? -1 : v->preg, v->spilled ? v->stack_index : 0, v->live_range_preg);
    }
    else if (v->is_constant && v->type && !is_floating_point_type(v->type)) printf(" c%ld", v->int_value);
    else if (v->label) printf(" l%d", v->label);
    else if (v->stack_index) printf(" s%d", v->stack_index);
    else printf(" o");
}

static void show_tacs(Function *function, char *what) {
    int n = 0;
    printf("tacs %s\n", what);
    for (Tac *tac = function->ir; tac; tac = tac->next) {
        int op = tac->operation;
        char *name = 0;
        for (int i = 0; ops[i].name; i++) if (ops[i].op == op) name = ops[i].name;
        char kind = is_conditional(op) ? 'J' : op == IR_JMP || op == X_JMP ? 'j' : op == IR_RETURN ? 'R' :
            op == IR_MOVE || op == X_MOV || op == X_MOVZ || op == X_MOVS ? 'M' : op == IR_CALL || op == X_CALL ? 'C' : '.';
        int target = 0;
        if (kind == 'J' || kind == 'j') target = op == IR_JZ || op == IR_JNZ ? tac->src2->label : tac->src1->label;
        printf("t %d %c %s %d", tac->label, kind, name ? name : "x", target);
        show_value(tac->dst);
        show_value(tac->src1);
        show_value(tac->src2);
        if (op == IR_PHI_FUNCTION) for (Value *v = tac->phi_values; v->type; v++) show_value(v);
        if (tac->x86_template) printf(" | %s", tac->x86_template);
        printf("\n");
        n++;
    }
}

static int tac_index(Function *function, Tac *wanted) {
    int n = 0;
    for (Tac *tac = function->ir; tac; tac = tac->next, n++) if (tac == wanted) return n;
    return -1;
}

static void show_set(char *name, int i, Set *s) {
    printf("%s %d", name, i);
    for (int j = 0; j <= s->max_value; j++) if (in_set(s, j)) printf(" %d", j);
    printf("\n");
}

static void show_longset(char *name, int i, LongSet *s) {
    printf("%s %d", name, i);
    longset_foreach(s, it) printf(" %ld", longset_iterator_element(&it));
    printf("\n");
}

static void show_blocks(Function *function) {
    for (int i = 0; i < function->cfg->node_count; i++)
        printf("block %d %d %d\n", i, tac_index(function, function->blocks[i].start), tac_index(function, function->blocks[i].end));
    for (int i = 0; i < function->cfg->edge_count; i++)
        printf("edge %d %d\n", function->cfg->edges[i].from->id, function->cfg->edges[i].to->id);
}

static void show_liveness(Function *function) {
    for (int i = 0; i < function->cfg->node_count; i++) {
        show_longset("uevar", i, function->uevar[i]);
        show_longset("varkill", i, function->varkill[i]);
        show_longset("liveout", i, function->liveout[i]);
    }
}

/* from the start of the phases up to the end of SSA */
static void stage_ssa(Function *function, char *name, int start) {
    run_compiler_phases(function, name, start, COMPILE_STOP_AFTER_ANALYZE_DOMINANCE);
    show_tacs(function, "start");
    show_blocks(function);
    for (int i = 0; i < function->cfg->node_count; i++) {
        show_set("dom", i, function->dominance[i]);
        printf("idom %d %d\n", i, function->idom[i]);
        show_set("df", i, function->dominance_frontiers[i]);
    }
    make_uevar_and_varkill(function);
    make_liveout(function);
    show_liveness(function);
    free_liveout(function);
    free_uevar_and_varkill(function);
    function->uevar = 0;

    make_globals_and_var_blocks(function);
    insert_phi_functions(function);
    rename_phi_function_variables(function);
    show_tacs(function, "ssa");
    show_blocks(function);
    make_live_ranges(function);
    blast_vregs_with_live_ranges(function);
    show_tacs(function, "ranges");
}

static void show_interference(Function *function) {
    int n = function->vreg_count;
    for (int i = 1; i <= n; i++)
        for (int j = i + 1; j <= n; j++)
            if (ig_lookup(function->interference_graph, n, i, j)) printf("ig %d %d\n", i, j);
}

/* coalescing and register allocation, directly on the intermediate representation */
static void stage_ir_allocation(Function *function, char *name) {
    run_compiler_phases(function, name, COMPILE_START_AT_ARITHMETIC_MANPULATION, COMPILE_STOP_AFTER_LIVE_RANGES);
    show_tacs(function, "coalesced");
    show_blocks(function);
    show_liveness(function);
    free_interference_graph(function);
    make_interference_graph(function, 1, 0);
    show_interference(function);
    function->stack_register_count = 0;
    allocate_registers(function);
    show_tacs(function, "allocated");
}

/* the whole way to register allocation */
static void stage_allocation(Function *function, char *name) {
    run_compiler_phases(function, name, COMPILE_START_AT_BEGINNING, COMPILE_STOP_AFTER_INSTRUCTION_SELECTION);
    make_interference_graph(function, 1, 0);
    show_tacs(function, "selected");
    show_blocks(function);
    show_liveness(function);
    allocate_registers(function);
    show_tacs(function, "allocated");
}

static Value *value(char *s) {
    if (*s == '-') return 0;
    Value *v = new_value();
    int n = atoi(s + 1);
    if (*s == 'c') { v->int_value = atol(s + 1); v->is_constant = 1; v->type = new_type(TYPE_LONG); }
    else if (*s == 'l') v->label = n;
    else { v->vreg = n; v->type = new_type(*s == 'd' ? TYPE_DOUBLE : *s == 'i' ? TYPE_INT : TYPE_LONG); }
    return v;
}

static Function *read_function(void) {
    Function *function = new_function();
    function->type = new_type(TYPE_FUNCTION);
    function->type->function = wcalloc(1, sizeof(FunctionType));
    function->type->target = new_type(TYPE_VOID);
    char line[200], op[20], d[30], s1[30], s2[30];
    int label;
    ir_start = 0;
    while (fgets(line, sizeof(line), stdin)) {
        if (!strncmp(line, "end", 3)) break;
        sscanf(line, "%d %19s %29s %29s %29s", &label, op, d, s1, s2);
        int operation = 0;
        for (int i = 0; ops[i].name; i++) if (!strcmp(ops[i].name, op)) operation = ops[i].op;
        if (!operation) { fprintf(stderr, "bad operation %s\n", op); exit(2); }
        Tac *tac = add_instruction(operation, value(d), value(s1), value(s2));
        tac->label = label;
    }
    function->ir = ir_start;
    return function;
}

static void in_child(void (*stage)(Function *, char *), Function *function, char *name, char *what) {
    printf("stage %s %s\n", what, name);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        stage(function, name);
        printf("done\n");
        fflush(stdout);
        _exit(0);
    }
    int status;
    waitpid(pid, &status, 0);
    if (status) printf("\nfailed %d\n", status);
    fflush(stdout);
}

static void ssa_ir(Function *function, char *name) { stage_ssa(function, name, COMPILE_START_AT_ARITHMETIC_MANPULATION); }
static void ssa_c(Function *function, char *name) { stage_ssa(function, name, COMPILE_START_AT_BEGINNING); }

static char *read_file(char *name) {
    FILE *f = fopen(name, "r");
    if (!f) { perror(name); exit(2); }
    char *s = malloc(1 << 22);
    s[fread(s, 1, (1 << 22) - 1, f)] = 0;
    fclose(f);
    return s;
}

static void c_file(char *name) {
    init_parser();
    init_lexer_from_string(internals());
    parse();
    free_lexer();
    memcpy_symbol = lookup_symbol("memcpy", global_scope, 0);
    memset_symbol = lookup_symbol("memset", global_scope, 0);
    compile_phase = CP_PARSING;
    init_lexer_from_string(read_file(name));
    parse();
    free_lexer();
    compile_phase = CP_POST_PARSING;
    init_instrsel();
    init_codegen();
    for (int i = 0; i < global_scope->symbol_list->length; i++) {
        Symbol *symbol = global_scope->symbol_list->elements[i];
        if (symbol->type->type != TYPE_FUNCTION || !symbol->function->is_defined) continue;
        in_child(ssa_c, symbol->function, symbol->identifier, "ssa");
        in_child(stage_allocation, symbol->function, symbol->identifier, "allocation");
    }
}

int main(int argc, char **argv) {
    opt_enable_vreg_renumbering = 1;
    opt_enable_register_coalescing = 1;
    opt_enable_live_range_coalescing = 1;
    opt_short_lr_infinite_spill_costs = 1;
    opt_optimize_arithmetic_operations = 1;
    opt_enable_preferred_pregs = 1;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "no-coalescing")) opt_enable_live_range_coalescing = 0;
        if (!strcmp(argv[i], "furthest")) opt_spill_furthest_liveness_end = 1;
        if (!strcmp(argv[i], "no-renumbering")) opt_enable_vreg_renumbering = 0;
        if (!strcmp(argv[i], "spill-short")) opt_short_lr_infinite_spill_costs = 0;
        if (!strcmp(argv[i], "pic")) opt_PIC = 1;
    }
    init_allocate_registers();
    init_instruction_selection_rules();
    init_memory_management_for_translation_unit();

    char line[2000];
    while (fgets(line, sizeof(line), stdin)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "ir ", 3)) {
            Function *function = read_function();
            in_child(ssa_ir, function, line + 3, "ssa");
            in_child(stage_ir_allocation, function, line + 3, "allocation");
        }
        else if (!strncmp(line, "c ", 2)) {
            fflush(stdout);
            pid_t pid = fork();
            if (!pid) { c_file(line + 2); fflush(stdout); _exit(0); }
            int status;
            waitpid(pid, &status, 0);
            if (status) printf("failed %d\n", status);
        }
        printf("finished %s\n", line);
        fflush(stdout);
    }
}
