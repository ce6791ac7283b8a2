#include "ir.h"
#include <cstdarg>
#include <set>
Program prog;
void die(const char *fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "symex: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); exit(3); }

static u64 up(u64 x, u64 a) { return (x + a - 1) / a * a; }
void Type::layout() {
  if (laid) return; laid = true;
  switch (k) {
  case T_VOID: case T_LABEL: case T_META: size = 0; break;
  case T_INT: { u32 b = bytesOf(w); u64 p = 1; while (p < b) p <<= 1; align = p > 16 ? 16 : p; size = up(b, align); break; }
  case T_PTR: size = align = 8; break;
  case T_FLOAT: size = align = w / 8; break;
  case T_VEC: { el[0]->layout(); u64 bits = n * (el[0]->k == T_INT ? el[0]->w : el[0]->size * 8); size = (bits + 7) / 8; u64 p = 1; while (p < size) p <<= 1; align = p; size = up(size, align); break; }
  case T_ARR: el[0]->layout(); size = n * el[0]->size; align = el[0]->align; break;
  case T_STRUCT: { if (!defined) die("undefined struct type"); u64 o = 0; for (auto t : el) { t->layout(); if (!packed) { o = up(o, t->align); if (t->align > align) align = t->align; } offs.push_back(o); o += t->size; } size = packed ? o : up(o, align); break; }
  }
}
void Type::flat() {
  if (leafed) return; leafed = true; layout();
  if (k == T_VOID || k == T_LABEL || k == T_META) return;
  if (k == T_VEC || k == T_ARR) {
    if (n > 100000) { die("huge first-class array"); }
    el[0]->flat(); u64 es = k == T_VEC ? (el[0]->k == T_INT ? bytesOf(el[0]->w) : el[0]->size) : el[0]->size;
    for (u64 i = 0; i < n; i++) { leafBase.push_back(leaves.size()); for (auto &l : el[0]->leaves) leaves.push_back({i * es + l.off, l.t}); }
  } else if (k == T_STRUCT) {
    for (size_t i = 0; i < el.size(); i++) { el[i]->flat(); leafBase.push_back(leaves.size()); for (auto &l : el[i]->leaves) leaves.push_back({offs[i] + l.off, l.t}); }
  } else leaves.push_back({0, this});
}

struct Parser {
  string text; vector<char *> lines; std::map<string, Type *> named; std::unordered_map<string, Sym> local;
  const char *p = nullptr; const char *file;
  std::map<u32, Type *> ints; Type *tptr, *tvoid, *tlabel, *tmeta, *tf32, *tf64;
  // function state
  Function *F = nullptr; std::unordered_map<string, std::pair<int, Type *>> regs; std::unordered_map<string, int> bbIdx;
  Parser() { tptr = mk(T_PTR); tvoid = mk(T_VOID); tlabel = mk(T_LABEL); tmeta = mk(T_META); tf32 = mk(T_FLOAT); tf32->w = 32; tf64 = mk(T_FLOAT); tf64->w = 64; tptr->w = 64; }
  Type *mk(TK k) { Type *t = new Type; t->k = k; return t; }
  Type *ity(u32 w) { auto &t = ints[w]; if (!t) { t = mk(T_INT); t->w = w; } return t; }
  const char *lineStart = nullptr; [[noreturn]] void err(const char *m) { if (lineStart) fprintf(stderr, "in: %.300s\n", lineStart); die("%s: parse error: %s at: %.120s", file, m, p ? p : "?"); }
  void ws() { while (*p == ' ' || *p == '\t') p++; }
  bool lit(const char *s) { ws(); size_t l = strlen(s); if (strncmp(p, s, l) == 0) { p += l; return true; } return false; }
  void need(const char *s) { if (!lit(s)) { static char b[200]; snprintf(b, 200, "expected '%s'", s); err(b); } }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  bool word(const char *s) { ws(); size_t l = strlen(s); if (strncmp(p, s, l) == 0 && !idc(p[l])) { p += l; return true; } return false; }
  string ident() { // after % or @
    string r; if (*p == '"') { p++; while (*p && *p != '"') { if (*p == '\\') { if (p[1] == '\\') { r += '\\'; p += 2; } else { char h[3] = {p[1], p[2], 0}; r += (char)strtol(h, 0, 16); p += 3; } } else r += *p++; } p++; }
    else while (idc(*p)) r += *p++; return r; }
  u64 num() { ws(); return strtoull(p, (char **)&p, 10); }
  Type *type() {
    ws(); Type *t = nullptr;
    if (*p == 'i' && isdigit((unsigned char)p[1])) { p++; t = ity(num()); }
    else if (word("ptr")) { if (lit("addrspace(")) { num(); need(")"); } t = tptr; }
    else if (word("void")) t = tvoid; else if (word("label")) t = tlabel; else if (word("metadata")) t = tmeta;
    else if (word("float")) t = tf32; else if (word("double")) t = tf64; else if (word("half")) { t = mk(T_FLOAT); t->w = 16; }
    else if (word("fp128")) { t = mk(T_FLOAT); t->w = 128; }
    else if (*p == '%') { p++; string n = ident(); auto &x = named[n]; if (!x) { x = mk(T_STRUCT); x->defined = false; } t = x; }
    else if (*p == '[') { p++; u64 n = num(); need("x"); Type *e = type(); need("]"); t = mk(T_ARR); t->n = n; t->el = {e}; }
    else if (*p == '<' && p[1] == '{') { p++; t = strct(true); need(">"); }
    else if (*p == '{') t = strct(false);
    else if (*p == '<') { p++; u64 n = num(); need("x"); Type *e = type(); need(">"); t = mk(T_VEC); t->n = n; t->el = {e}; }
    else err("type");
    return t; }
  Type *strct(bool pk) { need("{"); Type *t = mk(T_STRUCT); t->packed = pk; ws(); if (lit("}")) return t; for (;;) { t->el.push_back(type()); if (lit(",")) continue; need("}"); break; } return t; }
  void parens() { int d = 0; bool q = false; do { if (*p == '"') q = !q; else if (!q) { if (*p == '(') d++; else if (*p == ')') d--; } if (!*p) err("parens"); p++; } while (d); }
  static bool constWord(const char *s, size_t l) { static const char *cw[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "splat", "none", "add", "sub", "asm", "trunc", "c"}; for (auto c : cw) if (strlen(c) == l && !strncmp(c, s, l)) return true; return false; }
  u32 attrs() { u32 al = 0; for (;;) { ws(); if (*p == '#' || *p == '!') { while (*p && *p != ' ') p++; continue; } if (!isalpha((unsigned char)*p)) break; const char *q = p; while (isalnum((unsigned char)*q) || *q == '_' || *q == '.' || *q=='-') q++; if (constWord(p, q - p)) break; string a(p, q); p = q; if (a == "align") { u32 k; ws(); if (*p == '(') { p++; k = num(); need(")"); } else k = num(); al = (al & 0x80000000u) | k; } else { if (a == "nonnull" || a == "dereferenceable") al |= 0x80000000u; if (a == "byval") die("byval"); ws(); if (*p == '(') parens(); else if (*p == '=') { p++; ws(); if (*p == '"') { p++; while (*p != '"') p++; p++; } } } } return al; }
  Sym &symOf(const string &n) { auto it = local.find(n); if (it != local.end()) return it->second; auto &s = prog.ext[n]; if (!s.k) { die("%s: undeclared symbol %s", file, n.c_str()); } return s; }
  u64 symAddr(const string &n) { Sym &s = symOf(n); if (s.k == 1) return s.f->addr; return s.g->addr; }
  // ---- constants
  void cval(Type *t, vector<Val> &out) {
    ws();
    auto zero = [&]() { t->flat(); for (u32 i = 0; i < t->nl(); i++) out.push_back({0, 0, 0}); };
    if (word("zeroinitializer") ) { zero(); return; }
    if (word("undef") || word("poison")) { u32 n = t->nl(); for (u32 i = 0; i < n; i++) out.push_back({0, 0, F_UNDEF}); return; }
    if (word("null") || word("none")) { out.push_back({0, 0, 0}); return; }
    if (word("true")) { out.push_back({1, 0, 0}); return; }
    if (word("false")) { out.push_back({0, 0, 0}); return; }
    if (word("splat")) { need("("); Type *e = type(); vector<Val> v; cval(e, v); need(")"); for (u64 i = 0; i < t->n; i++) for (auto &x : v) out.push_back(x); return; }
    if (*p == 'c' && p[1] == '"') { p += 2; while (*p != '"') { u8 ch; if (*p == '\\') { if (p[1] == '\\') { ch = '\\'; p += 2; } else { char h[3] = {p[1], p[2], 0}; ch = strtol(h, 0, 16); p += 3; } } else ch = *p++; out.push_back({ch, 0, 0}); } p++; return; }
    if (*p == '[' || *p == '{' || *p == '<') {
      bool pk = *p == '<' && p[1] == '{'; char open = pk ? '{' : *p; char close = open == '[' ? ']' : open == '{' ? '}' : '>'; p += pk ? 2 : 1; ws();
      if (*p == close) p++; else for (;;) { Type *e = type(); cval(e, out); ws(); if (*p == ',') { p++; continue; } if (*p == close) { p++; break; } err("aggregate const"); }
      if (pk) need(">"); return; }
    if (*p == '@') { p++; string n = ident(); out.push_back({symAddr(n), 0, 0}); return; }
    if (word("getelementptr")) { for (;;) { if (word("inbounds") || word("nuw") || word("nusw")) continue; ws(); if (!strncmp(p, "inrange(", 8)) { p += 7; parens(); continue; } break; } need("("); Type *e = type(); need(","); type(); vector<Val> b; cval(tptr, b); u64 a = b[0].c; Type *cur = e; bool first = true; while (lit(",")) { Type *it = type(); vector<Val> ix; cval(it, ix); i64 k = sx(ix[0].c, it->w); cur->layout(); if (first) { a += k * cur->size; first = false; } else if (cur->k == T_STRUCT) { a += cur->offs[k]; cur = cur->el[k]; } else { cur->el[0]->layout(); a += k * cur->el[0]->size; cur = cur->el[0]; } } need(")"); out.push_back({a, 0, 0}); return; }
    for (auto w : {"ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"}) if (word(w)) { need("("); Type *e = type(); vector<Val> b; cval(e, b); need("to"); Type *d = type(); need(")"); u128 v = b[0].c; if (d->k == T_INT && d->w < 128) v &= (((u128)1 << d->w) - 1); out.push_back({v, 0, 0}); return; }
    for (auto w : {"add", "sub"}) if (word(w)) { while (word("nuw") || word("nsw")) {} bool add = w[0] == 'a'; need("("); Type *e = type(); vector<Val> b, c; cval(e, b); need(","); type(); cval(e, c); need(")"); u128 v = add ? b[0].c + c[0].c : b[0].c - c[0].c; if (e->w < 128) v &= (((u128)1 << e->w) - 1); out.push_back({v, 0, 0}); return; }
    if (t->k == T_FLOAT) { if (*p == '0' && p[1] == 'x') { p += 2; if (isalpha((unsigned char)*p) && !isxdigit((unsigned char)*p)) p++; u64 v = strtoull(p, (char **)&p, 16); if (t->w == 32) { double d; memcpy(&d, &v, 8); float f = d; u32 x; memcpy(&x, &f, 4); v = x; } out.push_back({v, 0, 0}); return; } double d = strtod(p, (char **)&p); u64 v = 0; if (t->w == 32) { float f = d; memcpy(&v, &f, 4); } else memcpy(&v, &d, 8); out.push_back({v, 0, 0}); return; }
    if (*p == '-' || isdigit((unsigned char)*p)) { bool neg = *p == '-'; if (neg) p++; u128 v = 0; while (isdigit((unsigned char)*p)) v = v * 10 + (*p++ - '0'); if (neg) v = -v; if (t->w && t->w < 128) v &= (((u128)1 << t->w) - 1); out.push_back({v, 0, 0}); return; }
    err("constant"); }
  static i64 sx(u128 v, u32 w) { if (w >= 64) return (i64)(u64)v; u64 m = 1ull << (w - 1); u64 x = (u64)v & ((1ull << w) - 1); return (i64)((x ^ m) - m); }
  // ---- operands
  int regSlot(const string &n, Type *t) { auto it = regs.find(n); if (it != regs.end()) return it->second.first; int s = F->nslots; F->nslots += t->nl(); regs[n] = {s, t}; return s; }
  Op opnd(Type *t) { ws(); if (*p == '%') { p++; string n = ident(); return {false, regSlot(n, t)}; }
    vector<Val> v; cval(t, v); if (v.size() != t->nl()) err("const arity");
    if (v.size() == 1) { char k[64]; snprintf(k, 64, "%llx.%llx.%d", (unsigned long long)(v[0].c >> 64), (unsigned long long)v[0].c, v[0].fl); auto &i = prog.cIntern[k]; if (!i) { i = prog.cpool.size(); prog.cpool.push_back(v[0]); } return {true, i}; }
    int b = prog.cpool.size(); for (auto &x : v) prog.cpool.push_back(x); if (v.empty()) b = 0; return {true, b}; }
  int bbOf(const string &n) { auto it = bbIdx.find(n); if (it == bbIdx.end()) die("%s: unknown label %s in %s", file, n.c_str(), F->name.c_str()); return it->second; }
  int labelRef() { need("label"); need("%"); return bbOf(ident()); }
  // ---- module
  void splitLines() { char *s = &text[0]; while (*s) { char *e = strchr(s, '\n'); lines.push_back(s); if (!e) break; *e = 0; s = e + 1; } }
  static bool isLocalLinkage(const char *s) { return strstr(s, " internal ") || strstr(s, " private "); }
  void pass1() { // register types and symbols
    bool inF = false;
    for (char *l : lines) {
      if (inF) { if (l[0] == '}') inF = false; continue; }
      if (l[0] == '%') { p = l + 1; string n = ident(); ws(); if (!lit("= type")) continue; ws(); auto &x = named[n]; if (!x) x = mk(T_STRUCT); if (word("opaque")) { continue; } Type *d = type(); if (d->k == T_STRUCT) { x->packed = d->packed; x->el = d->el; x->defined = true; } else { *x = *d; } }
      else if (!strncmp(l, "define", 6) || !strncmp(l, "declare", 7)) {
        bool def = l[2] == 'f'; char *at = nullptr; bool q = false; for (char *c = l; *c; c++) { if (*c == '"') q = !q; if (!q && *c == '@') { at = c; break; } if(q && *c=='@' && c[-1]=='"' ) {} }
        if (!at) continue; p = at + 1; string n = ident(); string head(l, at);
        bool loc = def && isLocalLinkage(head.c_str()); Sym &s = loc ? local[n] : prog.ext[n];
        if (!s.k) { s.k = 1; s.f = new Function; s.f->name = n; s.f->id = prog.funcs.size(); prog.funcs.push_back(s.f); s.f->addr = newFnObj(s.f); }
        if (def) inF = true; }
      else if (l[0] == '@') { p = l + 1; string n = ident(); const char *eq = p; if (!lit("=")) continue; string head(l, std::min((size_t)200, strlen(l))); bool loc = !strncmp(eq, " = internal", 11) || !strncmp(eq, " = private", 10); Sym &s = loc ? local[n] : prog.ext[n];
        if (!s.k) { s.k = 2; s.g = new Global; s.g->name = n; s.g->ext = true; prog.globals.push_back(s.g); } }
    } }
  void pass2Globals(bool wantExt) {
    struct Pend { Global *g; const char *init; Type *t; }; vector<Pend> pend; bool inF = false;
    for (char *l : lines) {
      if (inF) { if (l[0] == '}') inF = false; continue; }
      if (!strncmp(l, "define", 6)) { inF = true; continue; }
      if (l[0] != '@') continue;
      p = l + 1; string n = ident(); need("="); Global *g = symOf(n).g; bool ext = false, cst = false, alias = false;
      for (;;) { ws(); if (word("external") || word("extern_weak") || word("available_externally")) { ext = true; continue; } if (word("global")) break; if (word("constant")) { cst = true; break; } if (word("alias")) { alias = true; break; } if (isalpha((unsigned char)*p)) { while (isalnum((unsigned char)*p) || *p == '_') p++; ws(); if (*p == '(') parens(); continue; } err("global"); }
      if (alias || ext != wantExt) continue;
      Type *t = type(); t->layout(); const char *init = nullptr; if (!ext) { ws(); init = p; }
      // alignment: find last ", align N"
      u64 al = t->align; { const char *a = l, *last = nullptr; while ((a = strstr(a, ", align "))) { last = a; a += 8; } if (last) al = strtoull(last + 8, 0, 10); }
      if (g->addr && !g->ext) continue;   // already defined in another module
      if (g->addr && ext) continue;
      if (!g->addr) { g->addr = newGlobalObj(t->size, al, cst, ext, &g->obj); g->ty = t; g->ext = ext; g->constant = cst; g->align = al; }
      else if (g->ext && !ext) die("external global %s defined after use", n.c_str());
      if (init) pend.push_back({g, init, t});
    }
    for (auto &x : pend) inits.push_back({x.g, x.init, x.t});
  }
  struct Init { Global *g; const char *init; Type *t; }; vector<Init> inits;
  void initOne(Global *g, Type *t, u64 off) { // parse constant at p directly into memory
    t->layout();
    ws();
    if (t->k == T_ARR && t->el[0]->k == T_INT && t->el[0]->w == 8 && *p == 'c') { vector<Val> v; cval(t, v); vector<u8> b; for (auto &x : v) b.push_back((u8)x.c); initGlobalBytes(g->obj, off, b.data(), b.size()); return; }
    if (word("zeroinitializer")) { vector<u8> z(t->size, 0); initGlobalBytes(g->obj, off, z.data(), t->size); return; }
    if (!strncmp(p, "undef", 5) || !strncmp(p, "poison", 6)) { p += *p == 'u' ? 5 : 6; return; }
    if (t->k == T_STRUCT) { bool pk = *p == '<'; if (pk) p++; need("{"); ws(); if (*p == '}') p++; else for (size_t i = 0;; i++) { Type *e = type(); initOne(g, e, off + t->offs[i]); if (lit(",")) continue; need("}"); break; } if (pk) need(">"); return; }
    if (t->k == T_ARR) { need("["); ws(); if (*p == ']') { p++; return; } for (u64 i = 0;; i++) { Type *e = type(); e->layout(); initOne(g, e, off + i * e->size); if (lit(",")) continue; need("]"); break; } return; }
    vector<Val> v; cval(t, v); t->flat(); for (size_t i = 0; i < v.size(); i++) { Type *lt = t->leaves[i].t; initGlobalScalar(g->obj, off + t->leaves[i].off, v[i], lt->k == T_PTR ? 64 : lt->w); } }
  void pass3Inits() { for (auto &x : inits) { p = x.init; x.t->layout(); initOne(x.g, x.t, 0); } }
  bool lib = false; // the standard library's own code: functions with a model keep the model
  // ---- functions
  void parseHeader(char *l, bool def) {
    p = l; word(def ? "define" : "declare");
    // skip until type: linkage / visibility / cc / attrs
    for (;;) { ws(); const char *save = p; if (*p == 'i' && isdigit((unsigned char)p[1])) break; if (*p == '{' || *p == '[' || *p == '<' || *p == '%') break; const char *q = p; while (isalnum((unsigned char)*q) || *q == '_') q++; string w(p, q); if (w == "ptr" || w == "void" || w == "float" || w == "double" || w=="half"||w=="fp128") break; if (w.empty()) err("header"); p = q; if (w == "align") num(); else if (*p == '(') parens(); (void)save; }
    Type *rt = type(); attrs(); need("@"); string n = ident(); Function *f = symOf(n).f; F = f; f->ret = rt; need("(");
    if (f->hasBody) { F = nullptr; return; }
    regs.clear(); bbIdx.clear(); f->ptypes.clear(); f->pslot.clear(); f->pn.clear(); f->nslots = 0;
    ws(); int an = 0; if (!lit(")")) for (;;) { if (lit("...")) { need(")"); break; } Type *t = type(); f->ptypes.push_back(t); if (t->k != T_META) attrs(); else { /* metadata param */ } ws(); if (def) { string pn; if (*p == '%') { p++; pn = ident(); } else pn = std::to_string(an); f->pslot.push_back(regSlot(pn, t)); f->pn.push_back(t->nl()); } an++; if (lit(",")) continue; need(")"); break; } }
  void parseBody(size_t li) {
    // collect lines, joining continuations
    vector<string> L; size_t i = li + 1;
    for (; lines[i][0] != '}'; i++) { char *l = lines[i]; if (!*l || l[0] == ';') continue; bool cont = false; if (!L.empty() && l[0] == ' ') { char *q = l; while (*q == ' ') q++; if (q - l > 4 || !strncmp(q, "to label", 8) || *q == ']' || (q - l == 4)) cont = true; if (q - l == 2 && *q != ']') cont = false; } if (cont) { L.back() += " "; L.back() += l; } else { // strip comment after label
        L.push_back(l); } }
    for (auto &s : L) if (s[0] != ' ') { p = s.c_str(); string n; if (*p == '"') n = ident(); else { const char *c = p; while (*c && *c != ':') c++; n = string(p, c); } bbIdx[n] = F->bb.size(); F->bb.push_back(Block{n, {}, 0}); }
      else if (F->bb.empty()) { bbIdx["0"] = 0; F->bb.push_back(Block{"0", {}, 0}); }
    int cur = -1; if (!L.empty() && L[0][0] == ' ') cur = 0;
    for (auto &s : L) { if (s[0] != ' ') { cur++; continue; } p = s.c_str(); lineStart = p; Instr I{}; if (instr(I, s)) { if (I.op == I_PHI) F->bb[cur].nphi++; F->bb[cur].ins.push_back(I); } }
    F->hasBody = true; F->kind = FK_BODY; }
  u32 alignOpt() { u32 a = 0; const char *q = p; while ((q = strstr(q, ", align "))) { a = strtoul(q + 8, 0, 10); q += 8; } return a ? a : 0; }
  bool instr(Instr &I, const string &line) {
    ws(); string dn; bool hasD = false; if (*p == '%') { const char *s = p; p++; dn = ident(); ws(); if (*p == '=') { p++; hasD = true; } else { p = s; } }
    ws(); if (*p == '#') return false; // debug records
    const char *q = p; while (isalnum((unsigned char)*q) || *q == '_' || *q == '.') q++; string o(p, q); p = q;
    auto D = [&](Type *t) { if (hasD) { I.dst = regSlot(dn, t); auto it = regs.find(dn); it->second.second = t; } };
    static const std::map<string, Bin> bins = {{"add", B_ADD}, {"sub", B_SUB}, {"mul", B_MUL}, {"udiv", B_UDIV}, {"sdiv", B_SDIV}, {"urem", B_UREM}, {"srem", B_SREM}, {"shl", B_SHL}, {"lshr", B_LSHR}, {"ashr", B_ASHR}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}};
    auto sw = [&](Type *t) { Type *e = t->k == T_VEC ? t->el[0] : t; I.n = t->k == T_VEC ? t->n : 1; I.w = e->k == T_PTR ? 64 : e->w; I.ty = t; };
    if (o == "tail" || o == "musttail" || o == "notail") { ws(); q = p; while (isalnum((unsigned char)*q)) q++; o = string(p, q); p = q; }
    if (o == "alloca") { I.op = I_ALLOCA; Type *t = type(); t->layout(); u64 cnt = 1; u32 a = alignOpt(); if (lit(",")) { ws(); if (*p == 'i') { Type *ct = type(); vector<Val> v; ws(); if (*p == '%') die("dynamic alloca"); cval(ct, v); cnt = v[0].c; } } I.imm = t->size * cnt; I.align = a ? a : t->align; D(tptr); return true; }
    if (o == "load") { I.op = I_LOAD; word("atomic"); word("volatile"); Type *t = type(); t->flat(); need(","); type(); I.a = opnd(tptr); I.align = alignOpt(); if (!I.align) I.align = t->align; I.ty = t; I.n = t->nl(); D(t); return true; }
    if (o == "store") { I.op = I_STORE; word("atomic"); word("volatile"); Type *t = type(); t->flat(); I.a = opnd(t); need(","); type(); I.b = opnd(tptr); I.align = alignOpt(); if (!I.align) I.align = t->align; I.ty = t; I.n = t->nl(); return true; }
    if (o == "getelementptr") { I.op = I_GEP; for (;;) { ws(); if (word("inbounds")) { I.inb = true; continue; } if (word("nuw") || word("nusw")) continue; if (lit("inrange(")) { p -= 1; parens(); continue; } break; } Type *e = type(); need(","); Type *bt = type(); if (bt->k == T_VEC) die("vector gep"); I.a = opnd(tptr); I.gi = new vector<GepIdx>; Type *cur = e; bool first = true; while (true) { ws(); if (*p != ',') break; const char *sv = p; p++; ws(); if (*p == '!') { p = sv; break; } Type *it = type(); cur->layout(); if (first) { I.gi->push_back({opnd(it), it->w, cur->size}); first = false; } else if (cur->k == T_STRUCT) { vector<Val> v; cval(it, v); u64 k = v[0].c; I.imm += cur->offs[k]; cur = cur->el[k]; } else { cur->el[0]->layout(); I.gi->push_back({opnd(it), it->w, cur->el[0]->size}); cur = cur->el[0]; } }
      D(tptr); return true; }
    if (o == "br") { ws(); if (!strncmp(p, "label", 5)) { I.op = I_BR; I.bb1 = labelRef(); } else { I.op = I_CBR; Type *t = type(); I.a = opnd(t); need(","); I.bb1 = labelRef(); need(","); I.bb2 = labelRef(); } return true; }
    if (o == "switch") { I.op = I_SWITCH; Type *t = type(); I.w = t->w; I.a = opnd(t); need(","); I.bb1 = labelRef(); need("["); I.sw = new SwitchInfo; for (;;) { if (lit("]")) break; Type *ct = type(); vector<Val> v; cval(ct, v); need(","); int b = labelRef(); I.sw->vals.push_back(v[0].c); I.sw->bbs.push_back(b); } return true; }
    if (o == "ret") { I.op = I_RET; Type *t = type(); I.ty = t; I.n = t->nl(); if (t->k != T_VOID) I.a = opnd(t); return true; }
    if (o == "unreachable") { I.op = I_UNREACH; return true; }
    if (o == "resume") { I.op = I_RESUME; Type *t = type(); I.a = opnd(t); return true; }
    if (o == "landingpad") { I.op = I_LPAD; Type *t = type(); D(t); return true; }
    if (o == "call" || o == "invoke") {
      I.op = o == "call" ? I_CALL : I_INVOKE; I.ci = new CallInfo; u32 ra = 0; (void)ra;
      // cc and return attributes, then type
      for (;;) { ws(); if (*p == 'i' && isdigit((unsigned char)p[1])) break; if (*p == '{' || *p == '[' || *p == '<' || *p == '%') break; const char *s = p; while (isalnum((unsigned char)*s) || *s == '_') s++; string w(p, s); if (w == "ptr" || w == "void" || w == "float" || w == "double"||w=="half"||w=="fp128") break; if (w.empty()) err("call"); p = s; if (w == "align") num(); else if (w == "cc") num(); else if (*p == '(') parens(); }
      Type *rt = type(); ws(); if (*p == '(') parens(); ws();
      if (word("asm")) { I.op = I_UNSUP; I.txt = new string("inline asm"); return true; }
      if (*p == '@') { p++; string n = ident(); I.ci->direct = symOf(n).f; if (!I.ci->direct) err("call non-function"); } else I.ci->callee = opnd(tptr);
      need("("); ws(); bool meta = false; if (!lit(")")) for (;;) { Type *t = type(); u32 al = 0; if (t->k == T_META) { meta = true; while (*p && *p != ',' && *p != ')') p++; } else { al = attrs(); I.ci->args.push_back(opnd(t)); I.ci->argn.push_back(t->nl()); I.ci->argAlign.push_back(t->k == T_PTR ? al : 0); I.ci->argw.push_back(t->k == T_PTR ? 64 : t->w); } if (lit(",")) continue; need(")"); break; }
      (void)meta; I.ty = rt; I.n = rt->nl(); if (rt->k != T_VOID) { if (!hasD) { I.dst = F->nslots; F->nslots += rt->nl(); } else D(rt); }
      if (I.op == I_INVOKE) { const char *t = strstr(p, "to label %"); if (!t) err("invoke"); p = t + 3; I.bb1 = labelRef(); need("unwind"); I.bb2 = labelRef(); }
      return true; }
    if (o == "phi") { I.op = I_PHI; Type *t = type(); I.ty = t; I.n = t->nl(); I.ph = new vector<PhiIn>; for (;;) { need("["); Op v = opnd(t); need(","); need("%"); int b = bbOf(ident()); need("]"); I.ph->push_back({v, b}); if (!lit(",")) break; ws(); if (*p == '!') break; } D(t); return true; }
    if (o == "select") { I.op = I_SELECT; Type *ct = type(); I.srcw = ct->k == T_VEC ? ct->n : 0; I.a = opnd(ct); need(","); Type *t = type(); I.b = opnd(t); need(","); type(); I.c = opnd(t); t->flat(); I.ty = t; I.n = t->nl(); D(t); return true; }
    if (o == "icmp") { I.op = I_ICMP; word("samesign"); static const char *pn[] = {"eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"}; int k = -1; for (int j = 0; j < 10; j++) if (word(pn[j])) { k = j; break; } if (k < 0) err("icmp"); I.sub = k; Type *t = type(); sw(t); I.a = opnd(t); need(","); I.b = opnd(t); if (t->k == T_VEC) { Type *r = mk(T_VEC); r->n = t->n; r->el = {ity(1)}; D(r); } else D(ity(1)); return true; }
    auto bi = bins.find(o); if (bi != bins.end()) { I.op = I_BIN; I.sub = bi->second; for (;;) { if (word("nuw")) { I.nuw = true; continue; } if (word("nsw")) { I.nsw = true; continue; } if (word("exact") || word("disjoint")) continue; break; } Type *t = type(); sw(t); I.a = opnd(t); need(","); I.b = opnd(t); D(t); return true; }
    if (o == "trunc" || o == "zext" || o == "sext" || o == "bitcast" || o == "ptrtoint" || o == "inttoptr" || o == "addrspacecast") { for (;;) { if (word("nuw")) { I.nuw = true; continue; } if (word("nsw") || word("nneg")) continue; break; } Type *s = type(); I.a = opnd(s); need("to"); Type *d = type(); Type *se = s->k == T_VEC ? s->el[0] : s, *de = d->k == T_VEC ? d->el[0] : d; I.srcw = se->k == T_PTR ? 64 : se->w; sw(d); u32 sn = s->k == T_VEC ? s->n : 1; if (o == "bitcast") { if (sn == I.n && I.srcw == I.w) I.op = I_MOVE; else { I.op = I_BITCAST; I.imm = sn; } } else if (I.srcw == I.w) I.op = I_MOVE; else if (I.w < I.srcw) I.op = I_TRUNC; else I.op = o == "sext" ? I_SEXT : I_ZEXT; (void)de; D(d); return true; }
    if (o == "freeze") { I.op = I_FREEZE; Type *t = type(); I.a = opnd(t); sw(t); I.n = t->nl(); D(t); return true; }
    if (o == "extractvalue") { I.op = I_EXTRACTV; Type *t = type(); t->flat(); I.a = opnd(t); u32 base = 0; Type *cur = t; while (lit(",")) { ws(); if (*p == '!') break; u64 k = num(); cur->flat(); base += cur->leafBase[k]; cur = cur->k == T_STRUCT ? cur->el[k] : cur->el[0]; } I.imm = base; I.n = cur->nl(); D(cur); return true; }
    if (o == "insertvalue") { I.op = I_INSERTV; Type *t = type(); t->flat(); I.a = opnd(t); need(","); Type *et = type(); I.b = opnd(et); u32 base = 0; Type *cur = t; while (lit(",")) { ws(); if (*p == '!') break; u64 k = num(); cur->flat(); base += cur->leafBase[k]; cur = cur->k == T_STRUCT ? cur->el[k] : cur->el[0]; } I.imm = base; I.n = t->nl(); I.srcw = et->nl(); D(t); return true; }
    if (o == "extractelement") { I.op = I_EXTRACTE; Type *t = type(); I.a = opnd(t); need(","); Type *it = type(); I.b = opnd(it); I.n = t->n; D(t->el[0]); return true; }
    if (o == "insertelement") { I.op = I_INSERTE; Type *t = type(); I.a = opnd(t); need(","); Type *et = type(); I.b = opnd(et); need(","); Type *it = type(); I.c = opnd(it); I.n = t->n; D(t); return true; }
    if (o == "shufflevector") { I.op = I_SHUFFLE; Type *t = type(); I.a = opnd(t); need(","); type(); I.b = opnd(t); need(","); Type *mt = type(); vector<Val> mv; cval(mt, mv); I.mask = new vector<int>; for (auto &v : mv) I.mask->push_back(v.fl & F_UNDEF ? -1 : (int)v.c); I.srcw = t->n; I.n = mt->n; Type *r = mk(T_VEC); r->n = mt->n; r->el = {t->el[0]}; D(r); return true; }
    if (o == "cmpxchg") { I.op = I_CMPXCHG; word("weak"); word("volatile"); type(); I.a = opnd(tptr); need(","); Type *t = type(); I.b = opnd(t); need(","); type(); I.c = opnd(t); sw(t); I.align = alignOpt(); Type *r = mk(T_STRUCT); r->el = {t, ity(1)}; D(r); return true; }
    if (o == "atomicrmw") { I.op = I_RMW; word("volatile"); ws(); q = p; while (isalnum((unsigned char)*q) || *q == '_') q++; string k(p, q); p = q; static const std::map<string, Bin> rm = {{"add", B_ADD}, {"sub", B_SUB}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}, {"xchg", B_XCHG}, {"umax", B_UMAX}, {"umin", B_UMIN}}; auto ri = rm.find(k); if (ri == rm.end()) err("rmw"); I.sub = ri->second; type(); I.a = opnd(tptr); need(","); Type *t = type(); I.b = opnd(t); sw(t); I.align = alignOpt(); D(t); return true; }
    if (o == "fence") { I.op = I_FENCE; return true; }
    // unsupported: keep, fail only if executed. The destination type is unknown; uses give it one.
    I.op = I_UNSUP; I.txt = new string(line); return true; }
  bool floats(size_t i) { static const char *t[] = {"half", "float", "double", "fp128", "bfloat"}; for (; lines[i][0] != '}'; i++) for (auto x : t) for (char *q = strstr(lines[i], x); q; q = strstr(q + 1, x)) { char l = q == lines[i] ? ' ' : q[-1], r = q[strlen(x)]; if (strchr(" (,[<{", l) && strchr(" ),]>}", r)) return true; } return false; }
  void pass4Funcs() {
    for (size_t i = 0; i < lines.size(); i++) { char *l = lines[i]; if (!strncmp(l, "declare", 7)) { char *at = strchr(l, '@'); if (at) { parseHeader(l, false); } } else if (!strncmp(l, "define", 6)) { string save = l; parseHeader(l, true); if (F && lib && (libModelled(F->name) || floats(i))) { F->pslot.clear(); F->nslots = 0; } else if (F) parseBody(i); while (lines[i][0] != '}') i++; } } }
};
size_t libCount = 0;
void Program::load(const vector<string> &files) {
  cpool.push_back({0, 0, 0}); cIntern["."] = 0; vector<Parser *> ps;
  for (size_t fi = 0; fi < files.size(); fi++) { auto &f = files[fi]; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) die("cannot open %s", f.c_str()); auto *P = new Parser; P->lib = fi + libCount >= files.size(); P->file = strdup(f.c_str()); char buf[1 << 16]; size_t n; while ((n = fread(buf, 1, sizeof buf, fp)) > 0) P->text.append(buf, n); fclose(fp); P->splitLines(); ps.push_back(P); }
  for (auto P : ps) P->pass1();
  // definitions before external declarations so that an external reference finds the defined object
  for (int round = 0; round < 2; round++) for (auto P : ps) { P->pass2Globals(round == 1); }
  for (auto P : ps) P->pass3Inits();
  for (auto P : ps) P->pass4Funcs();
  for (auto f : funcs) classify(f);
}
