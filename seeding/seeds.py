"""Planted bugs. Each entry: id, property, [(file, old, new)], needs, breaks, demo body (C, CHECK(cond)), cflags."""
S = []


def seed(id, prop, edits, needs, breaks, demo, cflags=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cflags=cflags))


ASAN = "-g -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all"

seed("s01-shortopts-room", "C01", [("src/argtable3.c", "        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);",
     "        len += ((hdr->flag & ARG_HASVALUE) ? 2 : 1) * (hdr->shortopts ? strlen(hdr->shortopts) : 0);")],
     "an entry with an optional value and a short name", "the option string built for getopt overflows its heap block", r'''
    struct arg_str* s = arg_str0("abcdefgh", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-a", NULL};
    s->hdr.flag |= ARG_HASOPTVALUE; t[0] = s; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0);
    arg_freetable(t, 2);''', ASAN)

seed("s02-limit-parent", "C03", [("src/argtable3.c", "        end->parent[end->hdr.maxcount - 1] = end;\n", "")],
     "more errors than the end entry has room for, the last recorded one coming from an option entry", "the 'too many errors' slot names an option entry as its origin and its error function prints it", r'''
    struct arg_int* i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end* e = arg_end(1);
    void* t[2]; char* av[] = {"p", "-ix", "-iy", NULL};
    t[0] = i; t[1] = e;
    CHECK(arg_parse(3, av, t) == 1);
    CHECK(e->error[0] == ARG_ELIMIT && e->parent[0] == e);
    arg_freetable(t, 2);''')

seed("s03-rex-max-below-min", "C02", [("src/arg_rex.c", "    maxcount = (maxcount < mincount) ? mincount : maxcount;\n", "    if (maxcount <= 0)\n        maxcount = mincount;\n")],
     "a regular-expression entry declared with a positive maximum below its minimum", "the entry refuses values it must have, so no command line is valid", r'''
    struct arg_rex* r = arg_rexn(NULL, NULL, "[a-z]+", NULL, 3, 1, 0, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "ab", "cd", "ef", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(4, av, t) == 0); CHECK(r->count == 3);
    arg_freetable(t, 2);''')

seed("s04-last-letter-wins", "C04", [("src/argtable3.c", """    int tabindex;
    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->shortopts && strchr(table[tabindex]->shortopts, shortopt))
            return tabindex;
    }
    return -1;
""", """    int tabindex, found = -1;
    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->shortopts && strchr(table[tabindex]->shortopts, shortopt))
            found = tabindex;
    }
    return found;
""")], "one letter listed by two entries", "the option counts for the last entry listing the letter, while its value was read as the first one declares", r'''
    struct arg_lit* a = arg_lit0("xa", NULL, NULL);
    struct arg_str* b = arg_str0("a", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "-a", NULL};
    t[0] = a; t[1] = b; t[2] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(a->count == 1 && b->count == 0);
    arg_freetable(t, 3);''')

seed("s05-ambiguity", "C05", [("src/arg_getopt_long.c", """		else if ((flags & FLAG_LONGONLY) ||
			 long_options[i].has_arg !=
			     long_options[match].has_arg ||
			 long_options[i].flag != long_options[match].flag ||
			 long_options[i].val != long_options[match].val)
""", """		else if ((flags & FLAG_LONGONLY) ||
			 long_options[i].has_arg !=
			     long_options[match].has_arg ||
			 long_options[i].flag != long_options[match].flag)
""")], "an abbreviation that fits two entries taking values in the same way", "an ambiguous abbreviation is taken for the first entry", r'''
    struct arg_lit* a = arg_lit0(NULL, "verbose", NULL);
    struct arg_lit* b = arg_lit0(NULL, "version", NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "--ver", NULL};
    t[0] = a; t[1] = b; t[2] = e;
    CHECK(arg_parse(2, av, t) == 1); CHECK(e->error[0] == ARG_ELONGOPT); CHECK(a->count == 0);
    arg_freetable(t, 3);''')

seed("s06-gcd", "C06", [("src/arg_getopt_long.c", """	c = a % b;
	while (c != 0) {
		a = b;
		b = c;
		c = a % b;
	}
""", """	c = a % b;
	if (c != 0 && (c = b % (a = c)) != 0)
		b = (a % c) ? 1 : c;
	else if (a < b)
		b = a;
""")], "7 positional arguments followed by 5 options (the greatest common divisor takes more steps than unrolled)", "positional arguments change their order or turn into options", r'''
    struct arg_lit* a = arg_litn("a", NULL, 0, 99, NULL);
    struct arg_str* s = arg_strn(NULL, NULL, NULL, 0, 99, NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[64]; char txt[40][8]; int n, m, i, c;
    t[0] = a; t[1] = s; t[2] = e;
    for (n = 0; n <= 14; n++) for (m = 0; m <= 14; m++) {
        c = 0; av[c++] = "p";
        for (i = 0; i < n; i++) { sprintf(txt[i], "v%d", i); av[c++] = txt[i]; }
        for (i = 0; i < m; i++) av[c++] = "-a";
        av[c] = NULL;
        CHECK(arg_parse(c, av, t) == 0); CHECK(a->count == m && s->count == n);
        for (i = 0; i < n; i++) CHECK(s->sval[i] == txt[i]);
    }
    arg_freetable(t, 3);''')

seed("s07-file-optional", "C07", [("src/arg_file.c", """        parent->count++;
    } else {
        parent->filename""", """        errorcode = 0;
    } else {
        parent->filename""")], "a file option whose value is optional, given without a value", "the occurrence is not counted", r'''
    struct arg_file* f = arg_file0("f", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-f", NULL};
    f->hdr.flag |= ARG_HASOPTVALUE; t[0] = f; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(f->count == 1);
    arg_freetable(t, 2);''')

seed("s08-posix-cached", "C08", [("src/arg_getopt_long.c", "	if (posixly_correct == -1 || optreset) {", "	if (posixly_correct == -1) {")],
     "POSIXLY_CORRECT set or unset between two parses", "the first parse decides for all later ones whether options may follow positional arguments", r'''
    struct arg_lit* a = arg_lit0("a", NULL, NULL);
    struct arg_str* s = arg_strn(NULL, NULL, NULL, 0, 3, NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "x", "-a", NULL};
    t[0] = a; t[1] = s; t[2] = e;
    unsetenv("POSIXLY_CORRECT"); arg_parse(3, av, t); CHECK(a->count == 1 && s->count == 1);
    setenv("POSIXLY_CORRECT", "1", 1); arg_parse(3, av, t); CHECK(a->count == 0 && s->count == 2);
    arg_freetable(t, 3);''')

seed("s09-kb-underflow", "C09", [("src/arg_int.c", "            if (val > (INT_MAX / 1024) || val < (INT_MIN / 1024))", "            if (val > (INT_MAX / 1024))")],
     "a large negative number with the suffix KB", "the number wraps and a wrong value is stored", r'''
    struct arg_int* i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-i", "-3000000KB", NULL};
    t[0] = i; t[1] = e;
    CHECK(arg_parse(3, av, t) == 1); CHECK(i->count == 0);
    arg_freetable(t, 2);''')

seed("s10-dbl-trailing-blank", "C10", [("src/arg_dbl.c", "        val = strtod(argval, &end);\n", "        val = strtod(argval, &end);\n        while (end != argval && *end == ' ')\n            end++;\n")],
     "a number followed by a blank", "text after the number is accepted", r'''
    struct arg_dbl* d = arg_dbl0("d", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-d", "1.5 ", NULL};
    t[0] = d; t[1] = e;
    CHECK(arg_parse(3, av, t) == 1); CHECK(d->count == 0);
    arg_freetable(t, 2);''')

seed("s11-short-hidden", "C11", [("src/arg_file.c", "    if (basename && result == basename)\n", "    if (basename && result == basename && strlen(basename) > 2)\n")],
     "a hidden file whose name is a dot and one letter", "its whole name is given as extension", r'''
    struct arg_file* f = arg_file0("f", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-f", "x/.a", NULL};
    t[0] = f; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(strcmp(f->basename[0], ".a") == 0); CHECK(f->extension[0][0] == 0);
    arg_freetable(t, 2);''')

seed("s12-conv-num-digits", "C12", [("src/arg_date.c", "    } while ((result * 10 <= ulim) && rulim", "    } while (rulim")],
     "a one-digit day whose tens would exceed the range, directly followed by another number", "a value the format reads is refused", r'''
    struct arg_date* d = arg_date0("d", NULL, "%d%H", NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-d", "512", NULL};
    t[0] = d; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(d->tmval[0].tm_mday == 5 && d->tmval[0].tm_hour == 12);
    arg_freetable(t, 2);''')

seed("s13-two-digit-year", "C12", [("src/arg_date.c", "                if (i <= 68)", "                if (i < 68)")],
     "the two-digit year 68", "the year is taken as 1968", r'''
    struct arg_date* d = arg_date0("d", NULL, "%y", NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-d", "68", NULL};
    t[0] = d; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(d->tmval[0].tm_year == 168);
    arg_freetable(t, 2);''')

seed("s14-not-hex-class", "C13", [("src/arg_rex.c", "            return !isxdigit(c) ? TRex_True : TRex_False;", "            return !isdigit(c) ? TRex_True : TRex_False;")],
     "the class \\X and one of the letters a-f", "\\X matches hexadecimal letters", r'''
    struct arg_rex* r = arg_rex0("r", NULL, "\\X", NULL, 0, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-r", "c", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(3, av, t) == 1);
    arg_freetable(t, 2);''')

seed("s15-matches-room", "C14", [("src/arg_rex.c", "exp->_matches = (TRexMatch*)xmalloc((size_t)exp->_nsubexpr * sizeof(TRexMatch));\n        memset(exp->_matches, 0, (size_t)exp->_nsubexpr * sizeof(TRexMatch));", "exp->_matches = (TRexMatch*)xmalloc((size_t)(exp->_nsubexpr > 2 ? exp->_nsubexpr - 1 : exp->_nsubexpr) * sizeof(TRexMatch));\n        memset(exp->_matches, 0, (size_t)(exp->_nsubexpr > 2 ? exp->_nsubexpr - 1 : exp->_nsubexpr) * sizeof(TRexMatch));")],
     "a pattern with two capturing groups, both of them met while matching", "the match of the last group is written behind the heap block", r'''
    struct arg_rex* r = arg_rex0("r", NULL, "(a)(b)", NULL, 0, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-r", "ab", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(r->count == 1);
    arg_freetable(t, 2);''', ASAN)

seed("s16-date-excess", "C15", [("src/arg_date.c", """            arg_dstr_cat(ds, "excess option ");
            arg_print_option_ds(ds, shortopts, longopts, argval, "\\n");""", """            arg_dstr_cat(ds, "excess option ");
            arg_print_option_ds(ds, shortopts, longopts, datatype, "\\n");""")],
     "a date option given too often", "the report shows the value type instead of the offending value", r'''
    struct arg_date* d = arg_date0("d", NULL, "%d", NULL, NULL);
    struct arg_end* e = arg_end(3); arg_dstr_t ds = arg_dstr_create();
    void* t[2]; char* av[] = {"p", "-d", "1", "-d", "27", NULL};
    t[0] = d; t[1] = e;
    CHECK(arg_parse(5, av, t) == 1); arg_print_errors_ds(ds, e, "p");
    CHECK(strstr(arg_dstr_cstr(ds), "27") != NULL);
    arg_freetable(t, 2);''')

seed("s17-syntax-default", "C16", [("src/argtable3.c", """    arg_print_gnuswitch_ds(ds, table);

    /* print remaining options in abbreviated style */
    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        char syntax[200] = "";
        const char *shortopts, *longopts, *datatype;
""", """    arg_print_gnuswitch_ds(ds, table);

    /* print remaining options in abbreviated style */
    for (tabindex = 0; table[tabindex] && !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        char syntax[120] = "";
        const char *shortopts, *longopts, *datatype;
""")], "an option whose name and type take more than 118 characters", "the usage line shows it cut although the limit is 198", r'''
    struct arg_str* s; struct arg_end* e = arg_end(3); arg_dstr_t ds = arg_dstr_create(); char type[160];
    void* t[2];
    memset(type, 'T', 150); type[150] = 0;
    s = arg_str0(NULL, "name", type, NULL); t[0] = s; t[1] = e;
    arg_print_syntax_ds(ds, t, "\n");
    CHECK(strlen(arg_dstr_cstr(ds)) == strlen(" [--name=") + 150 + strlen("]\n"));
    arg_freetable(t, 2);''')

seed("s18-gnu-column", "C17", [("src/argtable3.c", "            if (strlen(syntax) > 25) {", "            if (strlen(syntax) >= 25) {")],
     "names and type of exactly 25 characters", "the description goes to a line of its own although the names fit their column", r'''
    struct arg_lit* a = arg_lit0("a", "abcdefghijklmnopqrs", "text");
    struct arg_end* e = arg_end(3); arg_dstr_t ds = arg_dstr_create();
    void* t[2]; t[0] = a; t[1] = e;
    arg_print_glossary_gnu_ds(ds, t);
    CHECK(strcmp(arg_dstr_cstr(ds), "  -a, --abcdefghijklmnopqrs text\n\n") == 0);
    arg_freetable(t, 2);''')

seed("s19-wrap-newline", "C18", [("src/argtable3.c", "        while (isspace((int)(*(text + line_start))) && *(text + line_start) != '\\n') {", "        while (isspace((int)(*(text + line_start))) && (line_start == 0 || *(text + line_start) != '\\n')) {")],
     "a text that begins with a newline", "the line break at the beginning of the text is lost", r'''
    FILE* f = tmpfile(); char buf[100]; size_t n;
    arg_print_formatted(f, 2, 20, "\nabc"); rewind(f); n = fread(buf, 1, 99, f); buf[n] = 0;
    CHECK(strcmp(buf, "\n  abc\n") == 0);''')

seed("s20-dstr-set-same", "C19", [("src/arg_dstr.c", "    if ((old_free_proc != 0) && (old_result != ds->data)) {", "    if (old_free_proc != 0) {")],
     "a text handed over a second time while the string already holds it", "the text is released while the string still holds it, and released again later", r'''
    arg_dstr_t ds = arg_dstr_create(); char* p = (char*)malloc(20); strcpy(p, "hello");
    arg_dstr_set(ds, p, ARG_DSTR_DYNAMIC);
    arg_dstr_set(ds, arg_dstr_cstr(ds), ARG_DSTR_DYNAMIC);
    CHECK(strcmp(arg_dstr_cstr(ds), "hello") == 0);
    arg_dstr_destroy(ds);''', ASAN)

seed("s21-itr-remove-parent", "C20", [("src/arg_hashtable.c", """    if (itr->parent == remember_e) {
        itr->parent = remember_parent;
    }
""", """    if (itr->parent == remember_e) {
        itr->parent = NULL;
    }
    (void)remember_parent;
""")], "removing through an iterator two entries in the middle of a chain, one after the other", "the chain is cut at its head and entries disappear", r'''
    arg_hashtable_t* h = arg_hashtable_create(0, hf, ef); arg_hashtable_itr_t* it; int k;
    for (k = 0; k < 5; k++) arg_hashtable_insert(h, mk(k), mk(k));
    it = arg_hashtable_itr_create(h);
    arg_hashtable_itr_advance(it);
    arg_hashtable_itr_remove(it); arg_hashtable_itr_remove(it);
    CHECK(arg_hashtable_count(h) == 3);
    { int found = 0; for (k = 0; k < 5; k++) if (arg_hashtable_search(h, &k)) found++; CHECK(found == 3); }
    arg_hashtable_itr_destroy(it); arg_hashtable_destroy(h, 1);''', "-DHASH")

seed("s22-expand-chain", "C20", [("src/arg_hashtable.c", """        while (NULL != (e = h->table[i])) {
            h->table[i] = e->next;
            index = index_for(newsize, e->h);
            e->next = newtable[index];
            newtable[index] = e;
        }
""", """        if (NULL != (e = h->table[i])) {
            struct arg_hashtable_entry* rest = e->next;
            index = index_for(newsize, e->h);
            e->next = newtable[index];
            newtable[index] = e;
            if (rest != NULL) {
                index = index_for(newsize, rest->h);
                e = rest->next;
                rest->next = newtable[index];
                newtable[index] = rest;
                while (e != NULL && (rest = e->next) != NULL) {
                    index = index_for(newsize, e->h);
                    e->next = newtable[index];
                    newtable[index] = e;
                    e = rest;
                }
            }
        }
""")], "the table growing while a chain holds at least three entries", "the last entry of each long chain is lost when the table grows", r'''
    arg_hashtable_t* h = arg_hashtable_create(0, hf, ef); int k;
    for (k = 0; k < 40; k++) arg_hashtable_insert(h, mk(k), mk(k));
    for (k = 0; k < 40; k++) CHECK(arg_hashtable_search(h, &k) != NULL);
    arg_hashtable_destroy(h, 1);''', "-DHASH")

seed("s23-cmd-description", "C21", [("src/arg_cmd.c", "    memcpy(cmd_info->description, description, strlen(description));", "    strncpy(cmd_info->description, description, ARG_CMD_NAME_LEN - 1);")],
     "a description of 100 characters or more", "the description is cut", r'''
    char d[220]; memset(d, 'd', 200); d[200] = 0;
    arg_cmd_init(); arg_cmd_register("c", NULL, d, NULL);
    CHECK(strcmp(arg_cmd_info("c")->description, d) == 0);
    arg_cmd_uninit();''')

seed("s24-catf-malloc", "C22", [("src/arg_dstr.c", """        xfree(buff);
        buff = (char*)xmalloc((size_t)(n + 2));
        memset(buff, 0, (size_t)(n + 2));
    }
""", """        xfree(buff);
        buff = (char*)malloc((size_t)(n + 2));
        if (buff == NULL)
            return;
        memset(buff, 0, (size_t)(n + 2));
    }
""")], "an allocation failing while a formatted text longer than the first guess is appended", "the text is dropped silently instead of calling the panic function", r'''
    struct rlimit rl; arg_dstr_t ds = arg_dstr_create(); char* big = (char*)malloc(60u << 20);
    memset(big, 'x', (60u << 20) - 1); big[(60u << 20) - 1] = 0;
    arg_set_panic(onpanic);
    rl.rlim_cur = rl.rlim_max = 100u << 20; setrlimit(RLIMIT_AS, &rl);
    if (setjmp(env) == 0) { arg_dstr_catf(ds, "%s", big); CHECK(0); }''')

seed("s25-freetable-null", "C23", [("src/argtable3.c", """        if (table[tabindex] == NULL)
            continue;
""", """        if (table[tabindex] == NULL)
            break;
""")], "a table with a missing entry before others", "the entries behind the missing one are not released", r'''
    void* t[3]; t[0] = arg_lit0("a", NULL, NULL); t[1] = NULL; t[2] = arg_end(3);
    arg_freetable(t, 3);
    CHECK(t[0] == NULL && t[2] == NULL);''')

seed("s26-check-stops", "C24", [("src/argtable3.c", """            int errorcode = table[tabindex]->checkfn(parent);
            if (errorcode != 0)
                arg_register_error(endtable, parent, errorcode, NULL);
""", """            int errorcode = table[tabindex]->checkfn(parent);
            if (errorcode != 0)
                arg_register_error(endtable, parent, errorcode, NULL);
            if (endtable->count >= endtable->hdr.maxcount)
                return;
""")], "more failing checks than the end entry has room for", "the checks of the remaining entries are not called and the overflow of errors is not recorded", r'''
    struct arg_lit *a = arg_lit1("a", NULL, NULL), *b = arg_lit1("b", NULL, NULL);
    struct arg_end* e = arg_end(1);
    void* t[3]; char* av[] = {"p", NULL};
    t[0] = a; t[1] = b; t[2] = e;
    CHECK(arg_parse(1, av, t) == 1); CHECK(e->error[0] == ARG_ELIMIT); CHECK(e->parent[0] == (void*)e);
    arg_freetable(t, 3);''')

seed("s27-exitcode", "C25", [("src/arg_cmd.c", """    /* syntax error handling */
    if (nerrors > 0) {
        arg_make_syntax_err_msg(ds, argtable, end);
        *exitcode = EXIT_FAILURE;
        return 1;
    }

    return 0;""", """    /* syntax error handling */
    *exitcode = (nerrors > 0) ? EXIT_FAILURE : EXIT_SUCCESS;
    if (nerrors > 0) {
        arg_make_syntax_err_msg(ds, argtable, end);
        return 1;
    }

    return 0;""")], "neither help nor errors, with an exit code the caller had already chosen", "the caller's exit code is overwritten", r'''
    struct arg_end* e = arg_end(3); void* t[1]; int code = 42; arg_dstr_t ds = arg_dstr_create();
    t[0] = e;
    arg_cmd_init();
    CHECK(arg_make_syntax_err_help_msg(ds, "c", 0, 0, t, e, &code) == 0); CHECK(code == 42);
    arg_cmd_uninit();''')

seed("s28-sort-wide", "C26", [("src/arg_utils.c", """    int j;

    /* Stop the recursion when no more divisions can be made. */
    if (i < k) {
""", """    int j;

    /* Two elements need no recursion. */
    if (k - i == 1 && esize > 0) {
        char* a = (char*)data + i * esize;
        if (comparefn(a, a + esize) > 0) {
            char tmp[32];
            size_t n = (size_t)esize < sizeof(tmp) ? (size_t)esize : sizeof(tmp);
            memcpy(tmp, a, n);
            memcpy(a, a + esize, n);
            memcpy(a + esize, tmp, n);
        }
        return;
    }

    /* Stop the recursion when no more divisions can be made. */
    if (i < k) {
""")], "elements larger than 32 bytes", "only the first 32 bytes of an element are moved", r'''
    struct el { int k; char t[60]; } a[2]; memset(a, 0, sizeof a);
    a[0].k = 2; strcpy(a[0].t + 40, "two"); a[1].k = 1; strcpy(a[1].t + 40, "one");
    arg_mgsort(a, 2, sizeof(struct el), 0, 1, cmpint);
    CHECK(a[0].k == 1 && strcmp(a[0].t + 40, "one") == 0); CHECK(strcmp(a[1].t + 40, "two") == 0);''')

seed("s30-int-buffer", "C09", [("src/arg_int.c", """                    val = strtol(argval, (char**)&end, 10);
                    if (end == argval) {""", """                    char digits[24];
                    size_t n = 0;
                    while (n < sizeof(digits) - 1 && argval[n] != '\\0') {
                        digits[n] = argval[n];
                        n++;
                    }
                    digits[n] = '\\0';
                    val = strtol(digits, (char**)&end, 10);
                    end = argval + (end - digits);
                    if (n == sizeof(digits) - 1)
                        while (*end >= '0' && *end <= '9')
                            end++;
                    if (end == argval) {""")], "a decimal number written with more than 23 characters (leading zeros or blanks)", "the digits beyond the 23rd are ignored", r'''
    struct arg_int* i = arg_int0("i", NULL, NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-i", "000000000000000000000000000042", NULL};
    t[0] = i; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(i->count == 1 && i->ival[0] == 42);
    arg_freetable(t, 2);''')

seed("s31-long-name-prefix", "C05", [("src/arg_getopt_long.c", """		if (strncmp(current_argv, long_options[i].name,
		    current_argv_len))
			continue;
""", """		if (strncmp(current_argv, long_options[i].name,
		    current_argv_len < 32 ? current_argv_len : 32))
			continue;
""")], "two long names that agree in their first 32 characters", "a name is taken for another one, or unknown names are accepted", r'''
    struct arg_lit* a = arg_lit0(NULL, "this-is-a-rather-long-option-name-one", NULL);
    struct arg_lit* b = arg_lit0(NULL, "this-is-a-rather-long-option-name-two", NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "--this-is-a-rather-long-option-name-two", NULL};
    t[0] = a; t[1] = b; t[2] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(a->count == 0 && b->count == 1);
    arg_freetable(t, 3);''')

seed("s32-glossary-empty", "C17", [("src/argtable3.c", """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->glossary) {
            char syntax[200] = "";
            const char* shortopts = table[tabindex]->shortopts;
            const char* longopts = table[tabindex]->longopts;
            const char* datatype = table[tabindex]->datatype;
            const char* glossary = table[tabindex]->glossary;
            arg_cat_optionv""", """    for (tabindex = 0; !(table[tabindex]->flag & ARG_TERMINATOR); tabindex++) {
        if (table[tabindex]->glossary && *table[tabindex]->glossary) {
            char syntax[200] = "";
            const char* shortopts = table[tabindex]->shortopts;
            const char* longopts = table[tabindex]->longopts;
            const char* datatype = table[tabindex]->datatype;
            const char* glossary = table[tabindex]->glossary;
            arg_cat_optionv""")], "an entry whose description is the empty text", "the entry disappears from the glossary", r'''
    struct arg_lit* a = arg_lit0("a", NULL, "");
    struct arg_end* e = arg_end(3); arg_dstr_t ds = arg_dstr_create();
    void* t[2]; t[0] = a; t[1] = e;
    arg_print_glossary_ds(ds, t, NULL);
    CHECK(strstr(arg_dstr_cstr(ds), "-a") != NULL);
    arg_freetable(t, 2);''')

seed("s33-many-values", "C02", [("src/arg_str.c", """    if (parent->count == parent->hdr.maxcount) {""", """    if ((unsigned char)parent->count == (unsigned char)parent->hdr.maxcount && (unsigned char)parent->count != 0) {""")],
     "an entry that may occur more than 256 times", "values are refused although the maximum is not reached", r'''
    struct arg_str* s = arg_strn("s", NULL, NULL, 0, 300, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; static char* av[400]; int i;
    t[0] = s; t[1] = e; av[0] = "p";
    for (i = 1; i <= 300; i++) av[i] = "-sx";
    CHECK(arg_parse(301, av, t) == 0); CHECK(s->count == 300);
    arg_freetable(t, 2);''')

seed("s34-long-value", "C05", [("src/argtable3.c", """                if (optarg && optarg[0] == 0 && (table[tabindex]->flag & ARG_HASVALUE)) {""", """                if (optarg && (optarg[0] == 0 || optarg[0] == '=') && (table[tabindex]->flag & ARG_HASVALUE)) {""")],
     "a value that begins with '='", "a proper value is reported as missing", r'''
    struct arg_str* s = arg_str0(NULL, "def", NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "--def==x", NULL};
    t[0] = s; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(strcmp(s->sval[0], "=x") == 0);
    arg_freetable(t, 2);''')

seed("s35-icase-range", "C13", [("src/arg_rex.c", "                    if (c >= toupper(node->left) && c <= toupper(node->right))", "                    if (c >= node->left && c <= node->right)")],
     "a lower-case range with the ignore-case flag and an upper-case letter", "upper-case letters do not match a lower-case range", r'''
    struct arg_rex* r = arg_rex0("r", NULL, "[a-c]", NULL, ARG_REX_ICASE, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-r", "B", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0);
    arg_freetable(t, 2);''')

seed("s36-argv-copy", "C01", [("src/argtable3.c", "    char** argvcopy = NULL;\n", "    char* small[64];\n    char** argvcopy = NULL;\n"), ("src/argtable3.c", "    argvcopy = (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));", "    argvcopy = argc <= 64 ? small : (char**)xmalloc(sizeof(char*) * (size_t)(argc + 1));"),
     ("src/argtable3.c", "    xfree(argvcopy);\n", "    if (argvcopy != small)\n        xfree(argvcopy);\n")],
     "exactly 64 arguments", "the terminator of the copied arguments is written behind the array", r'''
    struct arg_str* s = arg_strn(NULL, NULL, NULL, 0, 300, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; static char* av[400]; int i, n;
    t[0] = s; t[1] = e; av[0] = "p";
    for (i = 1; i < 400; i++) av[i] = "x";
    for (n = 2; n < 300; n++) { CHECK(arg_parse(n, av, t) == 0); CHECK(s->count == n - 1); }
    arg_freetable(t, 2);''', "-fsanitize=address")

seed("s37-posix-empty", "C06", [("src/arg_getopt_long.c", '(getenv("POSIXLY_CORRECT") != NULL)', '(getenv("POSIXLY_CORRECT") != NULL && *getenv("POSIXLY_CORRECT"))')],
     "POSIXLY_CORRECT set to the empty text", "options behind the first positional argument are taken as options", r'''
    struct arg_lit* a = arg_lit0("a", NULL, NULL);
    struct arg_str* s = arg_strn(NULL, NULL, NULL, 0, 3, NULL);
    struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "x", "-a", NULL};
    t[0] = a; t[1] = s; t[2] = e;
    setenv("POSIXLY_CORRECT", "", 1);
    CHECK(arg_parse(3, av, t) == 0); CHECK(a->count == 0 && s->count == 2);
    arg_freetable(t, 3);''')

seed("s38-command-prefix", "C21", [("src/arg_cmd.c", "    return (0 == strcmp(k1, k2));", "    return (0 == strncmp(k1, k2, 32));")],
     "two command names with equal hashes that agree in their first 32 characters", "one command takes the place of the other", r'''
    arg_cmd_init();
    arg_cmd_register("a-command-with-a-long-enough-name-bB", NULL, "one", NULL);
    arg_cmd_register("a-command-with-a-long-enough-name-ac", NULL, "two", NULL);
    CHECK(arg_cmd_count() == 2);
    CHECK(strcmp(arg_cmd_info("a-command-with-a-long-enough-name-bB")->description, "one") == 0);
    arg_cmd_uninit();''')

seed("s39-help-twice", "C25", [("src/arg_cmd.c", "    if (help > 0) {", "    if (help == 1) {")],
     "the help option given more than once", "no help is shown", r'''
    struct arg_lit* h = arg_litn("h", "help", 0, 3, NULL);
    struct arg_end* e = arg_end(3); arg_dstr_t ds = arg_dstr_create();
    void* t[2]; char* av[] = {"p", "-h", "-h", NULL}; int n, code = 77;
    t[0] = h; t[1] = e;
    arg_cmd_init();
    n = arg_parse(3, av, t);
    CHECK(arg_make_syntax_err_help_msg(ds, "cmd", h->count, n, t, e, &code) == 1); CHECK(code == 0);
    arg_freetable(t, 2);''')

seed("s40-letters", "C04", [("src/argtable3.c", "        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);", "        len += 3 * (hdr->shortopts ? strlen(hdr->shortopts) : 0);\n        if (len > 128)\n            len = 128;"),
     ("src/argtable3.c", "        while (shortopts && *shortopts) {", "        while (shortopts && *shortopts && res - result < 125) {")],
     "more than 62 letters for options with values", "the remaining letters are not options", r'''
    struct arg_str* s = arg_strn("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&", NULL, NULL, 0, 3, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "-&v", NULL};
    t[0] = s; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(s->count == 1);
    arg_freetable(t, 2);''')

seed("s41-greedy-stop", "C13", [("src/arg_rex.c", "                greedystop = &exp->_nodes[node->next];\n", "                greedystop = &exp->_nodes[node->next];\n                if (greedystop->type == OP_EXPR)\n                    greedystop = NULL;\n")],
     "a repetition followed by a group that begins with a character it could take itself", "a value that matches the pattern is refused", r'''
    struct arg_rex* r = arg_rex1(NULL, NULL, ".*(-\\d)", NULL, 0, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "ab-1", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0);
    arg_freetable(t, 2);''')

seed("s42-getopt-restart", "C27", [("src/arg_getopt_long.c", "	if (optreset)\n		nonopt_start = nonopt_end = -1;", "	if (optreset && optind != 1)\n		nonopt_start = nonopt_end = -1;")],
     "a scan given up behind a positional argument, then a new one", "the new scan moves arguments of the old one's positions", r'''
    struct option { const char* name; int has_arg; int* flag; int val; };
    extern int optind, optreset, opterr; int getopt_long(int, char* const*, const char*, const struct option*, int*);
    static struct option none[1]; char* a1[] = {"p", "v", "w", "-x", NULL}; char* a2[] = {"p", "-x", "v", NULL};
    opterr = 0; optind = 1; optreset = 1;
    CHECK(getopt_long(4, a1, "x", none, NULL) == 'x');
    optind = 1; optreset = 1;
    CHECK(getopt_long(3, a2, "x", none, NULL) == 'x'); CHECK(getopt_long(3, a2, "x", none, NULL) == -1);
    CHECK(optind == 2); CHECK(strcmp(a2[1], "-x") == 0);''')

seed("s43-getopt-index", "C27", [("src/arg_getopt_long.c", "	if (idx)\n		*idx = match;", "	if (idx && !long_options[match].flag)\n		*idx = match;")],
     "a long option with a variable, called directly with an index", "the index of the entry is not given", r'''
    struct option { const char* name; int has_arg; int* flag; int val; };
    extern int optind, optreset, opterr; int getopt_long(int, char* const*, const char*, const struct option*, int*);
    static int f; static struct option l[] = {{"one", 0, 0, 5}, {"two", 0, &f, 6}, {0, 0, 0, 0}}; char* a[] = {"p", "--two", NULL}; int idx = -1;
    opterr = 0; optind = 1; optreset = 1;
    CHECK(getopt_long(2, a, "x", l, &idx) == 0); CHECK(f == 6 && idx == 1);''')

seed("s44-range-order", "C14", [("src/arg_rex.c", "            if (exp->_nodes[first].type > t)\n                trex_error(exp, _SC(\"invalid range\"));", "            if (exp->_nodes[first].type > t && chain != ret)\n                trex_error(exp, _SC(\"invalid range\"));\n            if (exp->_nodes[first].type > t) {\n                exp->_nodes[r].left = t;\n                t = (TRexChar)exp->_nodes[first].type;\n            }")],
     "a class that begins with a range whose ends are reversed", "the malformed pattern accepts values", r'''
    struct arg_rex* r = arg_rex1(NULL, NULL, "[c-a]", NULL, 0, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "b", NULL};
    t[0] = r; t[1] = e;
    CHECK(arg_parse(2, av, t) != 0); CHECK(r->count == 0);
    arg_freetable(t, 2);''')

seed("s45-date-modifier", "C12", [("src/arg_date.c", "            case 'a':\n                LEGAL_ALT(0);", "            case 'a':\n                LEGAL_ALT(ALT_E);")],
     "a format with a modifier before the day's name", "a format that reads nothing accepts values", r'''
    struct arg_date* d = arg_date1(NULL, NULL, "%EA", NULL, NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "Monday", NULL};
    t[0] = d; t[1] = e;
    CHECK(arg_parse(2, av, t) != 0); CHECK(d->count == 0);
    arg_freetable(t, 2);''')

seed("s46-syntax-kept", "C16", [("src/argtable3.c", "    arg_print_syntax_ds(ds, argtable, suffix);\n    fputs(arg_dstr_cstr(ds), fp);\n    arg_dstr_destroy(ds);", "    arg_print_syntax_ds(ds, argtable, suffix);\n    if (fputs(arg_dstr_cstr(ds), fp) >= 0 && suffix)\n        arg_dstr_destroy(ds);")],
     "a usage line printed without a suffix", "the string it was composed in is never released", r'''
    struct arg_lit* a = arg_lit0("a", NULL, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; int i; size_t before; FILE* f = fopen("/dev/null", "w");
    t[0] = a; t[1] = e;
    arg_print_syntax(f, t, NULL);
    before = mallinfo2().uordblks;
    for (i = 0; i < 1000; i++) arg_print_syntax(f, t, NULL);
    CHECK(mallinfo2().uordblks < before + 10000);
    fclose(f); arg_freetable(t, 2);''', "-include malloc.h")

seed("s47-aliases", "C05", [("src/argtable3.c", "        const char* longopts = table[tabindex]->longopts;\n\n        while (longopts && *longopts) {\n            char* storestart = store;\n", "        const char* longopts = table[tabindex]->longopts;\n        int names = 0;\n\n        while (longopts && *longopts && names++ < 32) {\n            char* storestart = store;\n")],
     "an entry with more than 32 long names", "the remaining names are not recognised", r'''
    struct arg_lit* a = arg_lit0(NULL, "a1,a2,a3,a4,a5,a6,a7,a8,b1,b2,b3,b4,b5,b6,b7,b8,c1,c2,c3,c4,c5,c6,c7,c8,d1,d2,d3,d4,d5,d6,d7,d8,last", NULL);
    struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "--last", NULL};
    t[0] = a; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(a->count == 1);
    arg_freetable(t, 2);''')

seed("s48-check-parent", "C24", [("src/argtable3.c", "            void* parent = table[tabindex]->parent;\n            int errorcode = table[tabindex]->checkfn(parent);", "            void* parent = table[tabindex];\n            int errorcode = table[tabindex]->checkfn(parent);")],
     "a header in the table that stands for an entry kept elsewhere", "the check callback is handed the header instead of the entry", r'''
    struct arg_lit* a = arg_lit1("a", NULL, NULL); struct arg_end* e = arg_end(3); struct arg_hdr proxy = a->hdr;
    struct { struct arg_hdr h; int count; } s;
    void* t[2]; char* av[] = {"p", "-a", NULL};
    memset(&s, 0, sizeof s); s.h = proxy;
    t[0] = &s; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(a->count == 1);
    arg_free(t + 1);''')

seed("s49-wide-column", "C18", [("src/argtable3.c", "    const unsigned int colwidth = (rmargin - lmargin) + 1;", "    const unsigned int colwidth = (rmargin - lmargin) % 128 + 1;")],
     "a column wider than 128 characters", "text is wrapped far too early", r'''
    char b[300], o[700]; FILE* f; size_t n; int i;
    for (i = 0; i < 199; i++) b[i] = i % 9 == 8 ? ' ' : 'x'; b[199] = 0;
    f = tmpfile(); arg_print_formatted(f, 0, 199, b); rewind(f); n = fread(o, 1, sizeof o - 1, f); o[n] = 0; fclose(f);
    CHECK(n == 200); CHECK(memcmp(o, b, 199) == 0 && o[199] == '\n');''')

seed("s50-version-part", "C25", [("src/arg_cmd.c", 'arg_dstr_catf(ds, "%d.", s_mod_ver_minor);', 'arg_dstr_catf(ds, "%d.", s_mod_ver_minor % 1000);')],
     "a minor version above 999", "the help message shows another version than the one set", r"""
    arg_dstr_t ds = arg_dstr_create();
    arg_set_module_name("m"); arg_set_module_version(1, 2024, 3, "t");
    arg_make_get_help_msg(ds);
    CHECK(strncmp(arg_dstr_cstr(ds), "m v1.2024.3.t\n", 14) == 0);
    arg_dstr_destroy(ds);""")

seed("s51-syntax-required", "C16", [("src/argtable3.c", "            for (i = 0; i < table[tabindex]->mincount; i++) {", "            for (i = 0; i < table[tabindex]->mincount && i < 16; i++) {")],
     "an entry required more than 16 times", "the usage line shows too few required occurrences", r"""
    struct arg_file* a = arg_filen(NULL, NULL, "F", 20, 20, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; arg_dstr_t ds = arg_dstr_create();
    t[0] = a; t[1] = e;
    arg_print_syntax_ds(ds, t, "");
    CHECK(strlen(arg_dstr_cstr(ds)) == 40);
    arg_dstr_destroy(ds); arg_freetable(t, 2);""")

seed("s52-repetitions", "C13", [("src/arg_rex.c", "while ((nmaches == 0xFFFF || nmaches < p1)) {", "while ((nmaches == 0xFFFF || nmaches < p1) && nmaches < 1024) {")],
     "a value that repeats a part more than 1024 times", "a value that matches is refused", r"""
    static char v[1200]; struct arg_rex* r = arg_rex1(NULL, NULL, "[ab]+c", NULL, 0, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", v, NULL};
    memset(v, 'a', 1100); v[1100] = 'c';
    t[0] = r; t[1] = e;
    CHECK(arg_parse(2, av, t) == 0); CHECK(r->count == 1);
    arg_freetable(t, 2);""")

seed("s53-date-first", "C12", [("src/arg_date.c", "struct tm tm = parent->tmval[parent->count];", "struct tm tm = parent->tmval[0];")],
     "a second value of an entry whose format leaves fields unset", "the second value inherits fields of the first", r"""
    struct arg_date* d = arg_daten(NULL, NULL, "%p", NULL, 0, 2, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "PM", "PM", NULL}; int h;
    t[0] = d; t[1] = e;
    CHECK(arg_parse(3, av, t) == 0); CHECK(d->count == 2);
    h = d->tmval[0].tm_hour; CHECK(d->tmval[1].tm_hour == h);
    arg_freetable(t, 2);""")

seed("s54-int-errno", "C09", [("src/arg_int.c", "        if (val > INT_MAX || val < INT_MIN)", "        if (errno == ERANGE || val > INT_MAX || val < INT_MIN)"), ("src/arg_int.c", "#include <ctype.h>", "#include <ctype.h>\n#include <errno.h>")],
     "errno already ERANGE when parsing starts", "a valid integer is refused as out of range", r"""
    struct arg_int* i = arg_int1(NULL, NULL, NULL, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "7", NULL};
    t[0] = i; t[1] = e;
    (void)strtol("99999999999999999999999", NULL, 10);
    CHECK(arg_parse(2, av, t) == 0); CHECK(i->count == 1 && i->ival[0] == 7);
    arg_freetable(t, 2);""")

seed("s55-rex-flags", "C13", [("src/arg_rex.c", "        rex = trex_compile(priv->pattern, &error, priv->flags);\n        is_match", "        static const char* last;\n        static int flags;\n        if (last != priv->pattern) {\n            last = priv->pattern;\n            flags = priv->flags;\n        }\n        rex = trex_compile(priv->pattern, &error, flags);\n        is_match")],
     "two entries that share a pattern text and differ in their flags", "the second entry is matched with the flags of the first", r"""
    static const char pat[] = "ab";
    struct arg_rex* a = arg_rex0("a", NULL, pat, NULL, 0, NULL); struct arg_rex* b = arg_rex0("b", NULL, pat, NULL, ARG_REX_ICASE, NULL); struct arg_end* e = arg_end(3);
    void* t[3]; char* av[] = {"p", "-a", "ab", "-b", "AB", NULL};
    t[0] = a; t[1] = b; t[2] = e;
    CHECK(arg_parse(5, av, t) == 0); CHECK(a->count == 1 && b->count == 1);
    arg_freetable(t, 3);""")

seed("s56-file-last", "C11", [("src/arg_file.c", "                arg_extension(parent->basename[parent->count]);", "                arg_extension(parent->count > 1 ? argval : parent->basename[parent->count]);")],
     "a third path of one entry, with a dot in its directory and none in its file name", "the extension of a later path starts in its directory", r"""
    struct arg_file* f = arg_filen(NULL, NULL, NULL, 0, 3, NULL); struct arg_end* e = arg_end(3);
    void* t[2]; char* av[] = {"p", "a", "b", "dir.d/file", NULL};
    t[0] = f; t[1] = e;
    CHECK(arg_parse(4, av, t) == 0); CHECK(f->count == 3); CHECK(strcmp(f->extension[2], "") == 0);
    arg_freetable(t, 2);""")
