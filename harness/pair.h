/* Several values offered to two entries without names, in two parses one after the other: each value is judged by
 * itself, whatever was read before. The including file defines
 *   ACCEPTS(entry, text)        does the entry's type accept the text
 *   STORED(entry, slot, text)   is this what the entry holds in the slot
 *   COUNT(entry) */
static void pair_parse(void** table, struct arg_end* end, char** values, int nv) {
    char* argv[6];
    int i, n, e = 0, count[2] = {0, 0}, errors = 0;
    const char* held[2][4];
    argv[0] = "p"; argv[1] = "--";
    for (i = 0; i < nv; i++) argv[2 + i] = values[i];
    argv[2 + nv] = NULL;
    n = arg_parse(2 + nv, argv, table);
    vs_out("errors", n);
    for (i = 0; i < nv; i++) {
        const char* v = values[i];
        int tried = e < 2;
        while (e < 2 && !ACCEPTS(e, v)) e++;
        if (e < 2) { held[e][count[e]++] = v; continue; }
        vs_assert(n > errors, "a value no entry takes is an error");
        vs_assert(end->argval[errors] == v, "the error names the value");
        vs_assert(end->parent[errors] == (tried ? ((struct arg_hdr*)table[1])->parent : (void*)end), "the error names the last entry that refused the value");
        errors++;
        vs_reach("refused");
    }
    vs_assert(n == errors, "number of errors");
    for (e = 0; e < 2; e++) {
        vs_assert(COUNT(e) == count[e], "each value is accepted exactly when it is what the entry asks for");
        for (i = 0; i < count[e]; i++) vs_assert(STORED(e, i, held[e][i]), "each value is stored as if it were the only one");
    }
    if (count[0] && count[1]) vs_reach("both entries");
    if (count[0] == 2) vs_reach("two values");
}
static void pair_run(void** table, struct arg_end* end) {
    char* v[2];
    v[0] = sym_str_upto(0, LEN, "first");
    v[1] = sym_str_upto(0, LEN, "second");
#ifdef ALPHABET
    restrict_to(v[0], ALPHABET); restrict_to(v[1], ALPHABET);
#endif
    pair_parse(table, end, v, 2);
    { char* t = v[0]; v[0] = v[1]; v[1] = t; }
    pair_parse(table, end, v, 2);
    /* other texts at the same place */
    { char c = v[0][0]; if (c) v[0][0] = v[1][0] ? v[1][0] : 'b'; if (v[1][0]) v[1][0] = c ? c : '1'; }
    pair_parse(table, end, v, 2);
    free(v[0]); free(v[1]);
}
