/* Runs arg_parse() on a command line and compares everything observable with the reference grammar.
 * The includer defines NT and the table ref[]. */
static void* table[NT + 1];
static int count_of(int k) {
    switch (ref[k].type) {
        case T_LIT: return ((struct arg_lit*)table[k])->count;
        case T_STR: return ((struct arg_str*)table[k])->count;
        case T_INT: return ((struct arg_int*)table[k])->count;
        case T_FILE: return ((struct arg_file*)table[k])->count;
        case T_DBL: return ((struct arg_dbl*)table[k])->count;
        case T_REX: return ((struct arg_rex*)table[k])->count;
        case T_DATE: return ((struct arg_date*)table[k])->count;
    }
    return 0;
}
static const char* text_of(int k, int i) {
    switch (ref[k].type) {
        case T_STR: return ((struct arg_str*)table[k])->sval[i];
        case T_FILE: return ((struct arg_file*)table[k])->filename[i];
        case T_REX: return ((struct arg_rex*)table[k])->sval[i];
    }
    return NULL;
}
static struct arg_end* make_table(int room) {
    int k;
    for (k = 0; k < NT; k++) {
        switch (ref[k].type) {
            case T_LIT: table[k] = arg_litn(ref[k].s, ref[k].l, ref[k].lo, ref[k].hi, "g"); break;
            case T_STR: table[k] = arg_strn(ref[k].s, ref[k].l, NULL, ref[k].lo, ref[k].hi, "g"); break;
            case T_INT: table[k] = arg_intn(ref[k].s, ref[k].l, NULL, ref[k].lo, ref[k].hi, "g"); break;
            case T_FILE: table[k] = arg_filen(ref[k].s, ref[k].l, NULL, ref[k].lo, ref[k].hi, "g"); break;
            case T_DBL: table[k] = arg_dbln(ref[k].s, ref[k].l, NULL, ref[k].lo, ref[k].hi, "g"); break;
            case T_REX: table[k] = arg_rexn(ref[k].s, ref[k].l, "[a-c]+", NULL, ref[k].lo, ref[k].hi, 0, "g"); break;
            case T_DATE: table[k] = arg_daten(ref[k].s, ref[k].l, "%H", NULL, ref[k].lo, ref[k].hi, "g"); break;
            case T_REM: table[k] = arg_rem("x", "y"); break;
        }
        if (ref[k].opt) ((struct arg_hdr*)table[k])->flag |= ARG_HASOPTVALUE;
    }
    table[NT] = arg_end(room);
    vs_assert(arg_nullcheck(table) == 0, "constructors succeed");
    return (struct arg_end*)table[NT];
}
static int parse_and_compare(int argc, char** argv, struct arg_end* end, int room, int posix) {
    char** keep = (char**)malloc(sizeof(char*) * (size_t)(argc + 1));
    char** copy = (char**)malloc(sizeof(char*) * (size_t)(argc + 1));
    int i, k, n;
    long live;
    for (i = 0; i < argc; i++) { keep[i] = argv[i]; copy[i] = dup_str(argv[i]); }
    live = vs_live_heap();

    n = arg_parse(argc, argv, table);

    vs_assert(vs_live_heap() == live, "arg_parse leaves no allocation behind");
    vs_assert(n == end->count, "arg_parse returns the number of recorded errors");
    for (i = 0; i < argc; i++) {
        vs_assert(argv[i] == keep[i], "the caller's argv is not rearranged");
        vs_assert(same(argv[i], copy[i]), "the argument texts are not modified");
    }
    vs_assert(argv[argc] == NULL, "argv stays terminated");

    rp_parse(argc, argv, ref, NT, posix);
    vs_assume(!rp_funny);
    for (k = 0; k < NT; k++)
        vs_out("count", count_of(k));
    vs_out("errors", n);
    if (rp_ne > room) { /* more errors than the end entry can hold: the last slot says so */
        rp_ne = room;
        rp_e[room - 1].code = ARG_ELIMIT; rp_e[room - 1].ent = -1; rp_e[room - 1].arg = NULL;
#ifdef WANT_LIMIT
        vs_reach("too many errors");
#endif
    }
    vs_assert(n == rp_ne, "number of errors");
    for (k = 0; k < NT; k++) {
        vs_assert(count_of(k) == ref[k].n, "number of occurrences");
        for (i = 0; i < ref[k].n; i++) {
            const char *v = ref[k].v[i], *t = text_of(k, i);
            if (t && v) vs_assert(t == v, "the text stored is the argument's own text, in order");
            if (t && !v) vs_assert(t[0] == 0, "an omitted optional value reads as empty");
            if (ref[k].type == T_INT && v) vs_assert(((struct arg_int*)table[k])->ival[i] == ref[k].iv[i], "integer value");
            if (ref[k].type == T_DATE) vs_assert(((struct arg_date*)table[k])->tmval[i].tm_hour == (v ? ref[k].iv[i] : 0), "date value");
            if (ref[k].type == T_DBL && v) { double d = strtod(v, NULL); vs_assert(memcmp(&((struct arg_dbl*)table[k])->dval[i], &d, sizeof d) == 0, "floating-point value"); }
        }
    }
    for (i = 0; i < n; i++) {
        if (rp_e[i].ent < 0) {
            vs_assert(end->parent[i] == (void*)end, "error attributed to the command line");
            vs_assert(end->error[i] == rp_e[i].code, "error code");
        } else
            vs_assert(end->parent[i] == table[rp_e[i].ent], "error attributed to the offending entry");
        vs_assert(end->argval[i] == rp_e[i].arg, "error names the offending argument");
    }
    if (n == 0) vs_reach("accepted"); else vs_reach("rejected");
    if (argc > 1 && n == 0) vs_reach("accepted with arguments");
    for (i = 0; i < argc; i++) free(copy[i]);
    free(copy); free(keep);
    return n;
}
