// templates: what the compiled template writes, against a reference expansion
#include "ot.h"
int tool_main(int argc, char **argv);
static char tpl[8192]; static int ntpl; static char got[8192], want[8192]; static int ngot, nwant; extern int use_orig_line_numbers;
static void out(const char *s, int n) { CHECK(ngot + n < (int)sizeof got, "model: output"); memcpy(got + ngot, s, n); ngot += n; }
static void exp_(const char *s, int n) { CHECK(nwant + n < (int)sizeof want, "model: output"); memcpy(want + nwant, s, n); nwant += n; }
static void emit(const char *s) { int n = strlen(s); memcpy(tpl + ntpl, s, n); ntpl += n; tpl[ntpl] = 0; }
static int compile(int lines) { mf_add("d/t.html", tpl, ntpl, sizeof tpl); mf_add("o.c", outbuf, 0, sizeof outbuf); MF *a = mf_add("assets.h", assbuf, 0, sizeof assbuf); a->exists = 0; char *av[6] = { "x/otemplate", lines ? "-a" : "-n", lines ? "assets.h" : "d/t.html", lines ? "d/t.html" : "o.c", "o.c", NULL }; return tool_main(lines ? 5 : 4, av); }
static void run(onion_dict *ctx) { scan(outbuf); Fn *f = fn("t_html", 6); CHECK(f && f->body, "tool: the template has no function"); V a[2] = { ptr(ctx), ptr((void *)8) }; callfn(f, a, 2); }
static long live0; static void leaks(void) { CHECK(sym_heap_live() == live0, "tool: the compiled template leaks"); }
static void compare(void) { CHECK(ngot == nwant, "tool: the compiled template writes more or less than the template says"); CHECK(memcmp(got, want, nwant) == 0, "tool: the compiled template writes something else"); }
#if MODE == 1
// any text
static int bad, open_;
static void expand(const char *t, int n) { int i = 0; while (i < n) { if (t[i] == '{' && i + 1 < n && (t[i + 1] == '{' || t[i + 1] == '%' || t[i + 1] == '#')) { char o = t[i + 1], c = o == '{' ? '}' : o; int j = i + 2; while (j + 1 < n && !(t[j] == c && t[j + 1] == '}')) j++; if (j + 1 >= n) { open_ = 1; return; }
      if (o == '{') { char nm[32]; int k = 0, dots = 0; for (int q = i + 2; q < j; q++) { if (t[q] == '.') dots++; if (t[q] != ' ') nm[k++] = t[q]; } if (!dots && k == 1 && nm[0] == 'a') exp_("\1V\"\2", 4); if (dots == 1 && k == 3 && nm[0] == 'a' && nm[1] == '.' && nm[2] == 'a') { } }
      else if (o == '%') bad = 1; i = j + 2; }
    else { exp_(t + i, 1); i++; } } }
void harness(void) { emit(PRE); int p0 = ntpl; int n = sym_pick(0, N, "n"); char *b = tpl + ntpl; sym_make(b, n, "text"); for (int i = 0; i < n; i++) {
#ifdef ALPHA
    int ok = 0; for (const char *q = ALPHA; *q; q++) ok |= b[i] == *q; sym_assume(ok);
#else
    sym_assume(b[i] != 0 && b[i] != '{');
#endif
  } ntpl += n; emit(SUF); 
#ifdef ALPHA
  for (int i = p0; i < p0 + n; i++) tpl[i] = conc(tpl[i], 255);
#endif
  expand(tpl, ntpl); int r = compile(LINES ? 1 : sym_pick(0, 1, "lines")); if (open_) { sym_reach("open"); return; } if (bad) { CHECK(r != 0, "tool: an unknown tag is no error"); sym_reach("unknown tag"); return; }
  CHECK(r == 0, "tool: a template without errors is refused"); live0 = sym_heap_live(); onion_dict *d = onion_dict_new(); onion_dict_add(d, "a", "V\"", 0); run(d); compare(); onion_dict_free(d); leaks(); sym_reach("done"); }
#elif MODE == 2
// structures
typedef struct { int kind, a, b, op, body, els, next; char c; } Node; static Node nd[16]; static int nn; static int maxn = NODES;
static const char *vn[] = { "a", "b" }; static const char *va[2]; static int lkind; static const char *lx[] = { "p", "q" };
static int oplit;
static int mk(int dep, int inloop) { if (nn >= maxn) return -1; int k = OPS && dep == DEPTH ? 6 : OPS ? sym_pick(0, 1, "piece") : sym_pick(0, dep > 0 ? 8 : 4, "piece"); if (k == 0) return -1; Node *x = &nd[nn]; int id = nn++; x->kind = k; x->next = x->body = x->els = -1;
  switch (k) { case 1: { static const char tc[] = "x\"\\\n}%{"; x->c = tc[nn > 1 || OPS ? nn % 7 : sym_pick(0, 6, "char")]; break; } case 2: x->a = sym_pick(0, 1 + inloop, "variable"); break; case 3: x->a = sym_pick(0, 1, "key"); break; case 4: break;
    case 5: x->a = sym_pick(0, 1 + inloop, "variable"); x->body = mk(dep - 1, inloop); if (sym_pick(0, 1, "else")) { x->els = mk(dep - 1, inloop); x->b = 1; } else x->b = 0; break;
    case 6: if (OPS) { x->a = sym_pick(0, 1, "left"); x->b = sym_pick(0, 2, "right"); x->op = sym_pick(0, 5, "operator"); } else { x->a = 0; x->b = 1 + sym_pick(0, 1, "right"); x->op = 0; } x->body = mk(dep - 1, inloop); break;
    case 7: x->body = mk(dep - 1, 1); break; case 8: x->body = mk(dep - 1, inloop); break; }
  x = &nd[id]; x->next = OPS ? -1 : mk(dep, inloop); return id; }
static const char *ops[] = { "==", "!=", "<", "<=", ">", ">=" };
static void show(int i) { for (; i >= 0; i = nd[i].next) { Node *x = &nd[i]; char t[2] = { x->c, 0 }; switch (x->kind) { case 1: emit("["); emit(t); emit("]"); break; case 2: emit(x->a == 2 ? "{{i}}" : x->a ? "{{ b }}" : "{{a}}"); break; case 3: emit(x->a ? "{{l.y}}" : "{{ l.x }}"); break; case 4: emit("{# c #}"); break;
    case 5: emit("{% if "); emit(x->a == 2 ? "i" : vn[x->a]); emit(" %}"); show(x->body); if (x->b) { emit("{% else %}"); show(x->els); } emit("{%endif%}"); break;
    case 6: emit("{%if "); emit(vn[x->a]); emit(" "); emit(ops[x->op]); emit(" "); emit(x->b == 2 ? "\"u\"" : vn[x->b]); emit("%}"); show(x->body); emit("{% endif %}"); break;
    case 7: emit("{% for i in l %}"); show(x->body); emit("{% endfor %}"); break; case 8: emit("{% block k"); t[0] = '0' + i % 10; emit(t); emit(" %}"); show(x->body); emit("{% endblock %}"); break; } } }
static void html(const char *s) { if (s) { exp_("\1", 1); exp_(s, strlen(s)); exp_("\2", 1); } }
static void ev(int i, const char *iv) { for (; i >= 0; i = nd[i].next) { Node *x = &nd[i]; switch (x->kind) { case 1: exp_("[", 1); exp_(&x->c, 1); exp_("]", 1); break; case 2: html(x->a == 2 ? iv : va[x->a]); break; case 3: if (x->a ? lkind >= 3 : lkind >= 2) html(lx[x->a]); break;
    case 5: { const char *v = x->a == 2 ? iv : va[x->a]; if (v && strcmp(v, "false") != 0) ev(x->body, iv); else if (x->b) ev(x->els, iv); break; }
    case 6: { const char *p = va[x->a], *q = x->b == 2 ? "u" : va[x->b]; int t; if (!p || !q) t = x->op == 1 ? p != q : (x->op == 0 || x->op == 3 || x->op == 5) && p == q; else { int c = strcmp(p, q); t = x->op == 0 ? c == 0 : x->op == 1 ? c != 0 : x->op == 2 ? c < 0 : x->op == 3 ? c <= 0 : x->op == 4 ? c > 0 : c >= 0; } if (t) ev(x->body, iv); break; }
    case 7: if (lkind >= 2) ev(x->body, "p"); if (lkind >= 3) ev(x->body, "q"); break; case 8: ev(x->body, iv); break; } } }
void harness(void) { int root = mk(DEPTH, 0); int useA = 0, useB = 0, useL = 0; for (int i = 0; i < nn; i++) { Node *x = &nd[i]; if (x->kind == 2 || x->kind == 5) { if (x->a == 0) useA = 1; if (x->a == 1) useB = 1; } if (x->kind == 6) { useA |= x->a == 0 || x->b == 0; useB |= x->a == 1 || x->b == 1; } if (x->kind == 3 || x->kind == 7) useL = 1; }
  static const char *vals[] = { NULL, "u", "false", "", "v" }; va[0] = useA ? vals[sym_pick(0, VALS, "a")] : "u"; va[1] = useB ? vals[sym_pick(0, VALS, "b")] : NULL; lkind = useL ? sym_pick(0, 3, "l") : 0;
  show(root); int r = compile(LINES ? 1 : sym_pick(0, 1, "lines")); CHECK(r == 0, "tool: a template without errors is refused");
  live0 = sym_heap_live(); onion_dict *d = onion_dict_new(), *l = NULL; if (va[0]) onion_dict_add(d, "a", va[0], 0); if (va[1]) onion_dict_add(d, "b", va[1], 0); if (lkind) { l = onion_dict_new(); if (lkind >= 2) onion_dict_add(l, "x", "p", 0); if (lkind >= 3) onion_dict_add(l, "y", "q", 0); onion_dict_add(d, "l", l, OD_DICT); }
  ev(root, va[0] && 0 ? "" : NULL); run(d); compare(); onion_dict_free(d); if (l) onion_dict_free(l); leaks(); sym_reach("done"); }
#elif MODE == 3
// tags in any order: errors are told, nothing crashes, and what is accepted is balanced
void harness(void) { static const char *tg[] = { "{% if a %}", "{% else %}", "{% endif %}", "{% for i in l %}", "{% endfor %}", "{% block k %}", "{% endblock %}", "{% for %}", "{% if %}", "{% if a b %}", "{% if a ? b %}", "{% include %}", "{% extends %}", "{% block %}", "{% %}", "{% unknown %}", "{% include \"o.html\" %}", "{% extends \"base.html\" %}", "x" };
  int stack[8], sp = 0, err = 0, n = sym_pick(0, N, "tags"); for (int i = 0; i < n; i++) { int t = sym_pick(0, 18, "tag"); emit(tg[t]); if (err) continue; switch (t) { case 0: case 3: case 5: stack[sp++] = t; break; case 1: if (sp && stack[sp - 1] == 0) stack[sp - 1] = 1; else err = 1; break; case 2: if (sp && stack[sp - 1] <= 1) sp--; else err = 1; break; case 4: if (sp && stack[sp - 1] == 3) sp--; else err = 1; break; case 6: if (sp && stack[sp - 1] == 5) sp--; else err = 1; break; case 16: case 17: case 18: break; default: err = 1; } }
  int r = compile(0); CHECK((r != 0) == (err || sp), "tool: an unbalanced template is accepted, or a balanced one refused"); if (!r) { live0 = sym_heap_live(); onion_dict *d = onion_dict_new(); run(d); onion_dict_free(d); leaks(); sym_reach("accepted"); } else sym_reach("refused"); }
#elif MODE == 4
// long lines and files, and files that can not be opened
void harness(void) { static const int len[] = LENS; int k = sym_pick(0, sizeof len / sizeof *len - 1, "length"), n = len[k], nl = sym_pick(0, 1, "lines of text"); file_faults = 0; for (int i = 0; i < n; i++) tpl[ntpl++] = nl && i % 61 == 60 ? '\n' : 'a' + i % 26; tpl[ntpl] = 0; if (n > 3) tpl[n / 2] = sym_pick(0, 1, "quote") ? '"' : 'z'; exp_(tpl, ntpl); int r = compile(sym_pick(0, 1, "numbers")); CHECK(r == 0, "tool: a template without errors is refused"); live0 = sym_heap_live(); onion_dict *d = onion_dict_new(); run(d); compare(); onion_dict_free(d); leaks(); sym_reach("done"); }
#elif MODE == 5
void harness(void) { emit("x"); file_faults = 2; int r = compile(0); if (file_faults == 2) { CHECK(r == 0, "tool: refused"); sym_reach("done"); } else if (!mf[1].exists || !mf[1].n) { CHECK(r != 0, "tool: no output, and no error"); sym_reach("error"); } }
#endif
