// C12: strategy strings are parsed faithfully or refused; saved strategies mean the same; builders always give usable strategies.
#include "genord.hpp"
#include "mesh.hpp"

// ------------------------------------------------------------ independent description of the strategy languages
struct Par { const char* name; char kind; const char* ext; };           // kinds: i integer, d double, c case (ext: letters), s strategy (ext: type)
static const map<char, map<char, vector<Par>>> LANG = {
  {'K', {{'b', {{"width",'i',0},{"bnd",'s',"K"},{"org",'s',"K"}}}, {'c', {}}, {'d', {{"pass",'i',0},{"dif",'d',0},{"rem",'d',0}}}, {'x', {{"bal",'d',0}}}, {'f', {{"move",'i',0},{"pass",'i',0},{"bal",'d',0}}},
         {'m', {{"asc",'s',"K"},{"low",'s',"K"},{"vert",'i',0},{"rat",'d',0},{"type",'c',"hs"}}}, {'r', {{"job",'c',"ut"},{"bal",'d',0},{"map",'c',"ut"},{"poli",'c',"rlsLS"},{"sep",'s',"B"}}}}},
  {'B', {{'b', {{"bnd",'s',"B"},{"org",'s',"B"},{"width",'i',0}}}, {'d', {{"pass",'i',0},{"type",'c',"bk"}}}, {'x', {}}, {'f', {{"move",'i',0},{"pass",'i',0},{"bal",'d',0},{"type",'c',"ab"}}}, {'h', {{"pass",'i',0}}}, {'g', {{"pass",'i',0}}},
         {'m', {{"asc",'s',"B"},{"low",'s',"B"},{"vert",'i',0},{"rat",'d',0}}}, {'z', {}}}},
  {'O', {{'b', {{"strat",'s',"O"},{"cmin",'i',0}}}, {'o', {{"strat",'s',"O"}}}, {'c', {{"rat",'d',0},{"cpr",'s',"O"},{"unc",'s',"O"}}}, {'g', {{"pass",'i',0}}}, {'d', {{"cmin",'i',0},{"cmax",'i',0},{"frat",'d',0}}},
         {'f', {{"cmin",'i',0},{"cmax",'i',0},{"frat",'d',0}}}, {'k', {{"siz",'i',0},{"strat",'s',"K"}}}, {'n', {{"sep",'s',"V"},{"ole",'s',"O"},{"ose",'s',"O"}}}, {'s', {}}}},
  {'V', {{'b', {{"bnd",'s',"V"},{"org",'s',"V"},{"width",'i',0}}}, {'e', {{"strat",'s',"B"},{"type",'c',"tf"}}}, {'f', {{"move",'i',0},{"pass",'i',0},{"bal",'d',0}}}, {'h', {{"pass",'i',0}}}, {'g', {{"pass",'i',0}}},
         {'m', {{"asc",'s',"V"},{"low",'s',"V"},{"type",'c',"hs"},{"vert",'i',0},{"rat",'d',0}}}, {'v', {}}, {'z', {}}}},
  {'W', {{'e', {{"strat",'s',"K"}}}, {'f', {{"pass",'i',0},{"move",'i',0},{"bal",'d',0}}}, {'m', {{"asc",'s',"W"},{"low",'s',"W"},{"vert",'i',0},{"rat",'d',0}}}, {'r', {{"sep",'s',"V"}}}, {'z', {}}}},
  {'H', {{'b', {{"strat",'s',"H"},{"cmin",'i',0}}}, {'c', {{"rat",'d',0},{"cpr",'s',"H"},{"unc",'s',"H"}}}, {'g', {{"pass",'i',0}}}, {'v', {{"strat",'s',"O"}}}, {'d', {{"cmin",'i',0},{"cmax",'i',0},{"frat",'d',0}}}, {'f', {{"cmin",'i',0},{"cmax",'i',0},{"frat",'d',0}}},
         {'n', {{"sep",'s',"X"},{"ole",'s',"H"},{"ose",'s',"H"}}}, {'s', {}}}},
  {'X', {{'f', {{"move",'i',0},{"pass",'i',0},{"bal",'d',0}}}, {'h', {{"pass",'i',0}}}, {'m', {{"asc",'s',"X"},{"low",'s',"X"},{"type",'c',"h"},{"vnod",'i',0},{"rat",'d',0}}}, {'z', {}}}},
};
static const map<char, vector<const char*>> COND = {
  {'K', {"load","levl","edge","vert"}}, {'B', {"edge","levl","load","load0","vert","lmin0","lmax0"}}, {'O', {"edge","levl","load","mdeg","vert"}}, {'V', {"edge","levl","load","vert"}},
  {'W', {"edge","part","vert"}}, {'H', {"edge","levl","load","mdeg","vnod","velm"}}, {'X', {"edge","levl","load","velm","vnod"}} };

struct TN; struct SN; typedef std::shared_ptr<TN> TP; typedef std::shared_ptr<SN> SP;
struct TN { char op = 'n'; double val = 0; bool dbl = false; string txt, var; TP a, b; };     // op: | & ! < = > + - * % n(umber) v(ariable)
struct SN { char kind = 'E'; char type = 'K', meth = 0; map<string, string> num; map<string, SP> str; vector<SP> sub; TP test; vector<string> order; };

static double evalT(const TP& t, const map<string, double>& m) {
  switch (t->op) {
    case 'n': return t->val; case 'v': return m.at(t->var);
    case '!': return evalT(t->a, m) == 0; case '&': return evalT(t->a, m) != 0 && evalT(t->b, m) != 0; case '|': return evalT(t->a, m) != 0 || evalT(t->b, m) != 0;
    case '<': return evalT(t->a, m) < evalT(t->b, m); case '>': return evalT(t->a, m) > evalT(t->b, m); case '=': return evalT(t->a, m) == evalT(t->b, m);
    case '+': return evalT(t->a, m) + evalT(t->b, m); case '-': return evalT(t->a, m) - evalT(t->b, m); case '*': return evalT(t->a, m) * evalT(t->b, m); default: return fmod(evalT(t->a, m), evalT(t->b, m));
  }
}
// ------------------------------------------------------------ generation
static TP genArith(Rng& r, const vector<const char*>& vars, int d, bool dbl) {
  TP t(new TN);
  if (d <= 0 || r.chance(0.35)) {
    if (r.chance(0.5)) { t->op = 'v'; t->var = vars[r.below((long)vars.size())]; return t; }
    if (dbl && r.chance(0.4)) { t->dbl = true; t->txt = r.chance(0.2) ? fmt("%ld.%lde%ld", r.range(1, 9), r.range(0, 99), r.range(-3, 3)) : r.chance(0.2) ? fmt("0.0000%ld", r.range(1, 99999)) : fmt("%ld.%ld", r.range(0, 99), r.range(0, 999)); t->val = atof(t->txt.c_str()); }
    else { t->val = (double)r.range(0, 60); t->txt = fmt("%ld", (long)t->val); }
    return t;
  }
  t->op = "+-*%+-"[r.below(6)]; t->a = genArith(r, vars, d - 1, dbl);
  if (t->op == '%') { t->b.reset(new TN); t->b->val = (double)r.range(1, 20); t->b->txt = fmt("%ld", (long)t->b->val); } else t->b = genArith(r, vars, d - 1, dbl);
  return t;
}
static TP genTest(Rng& r, const vector<const char*>& vars, int d, bool dbl) {
  TP t(new TN);
  if (d <= 0 || r.chance(0.4)) { t->op = "<=>"[r.below(3)]; t->a = genArith(r, vars, (int)r.below(3), dbl); t->b = genArith(r, vars, (int)r.below(3), dbl); return t; }
  t->op = "|&!|&"[r.below(5)]; t->a = genTest(r, vars, d - 1, dbl); if (t->op != '!') t->b = genTest(r, vars, d - 1, dbl);
  return t;
}
static SP genS(Rng& r, char type, int d, bool dbl) {
  SP s(new SN); s->type = type; int k = (int)r.below(20);
  if (d > 0 && k < 2) { s->kind = 'S'; s->sub = {genS(r, type, d - 1, dbl), genS(r, type, d - 1, dbl)}; return s; }
  if (d > 0 && k < 5) { s->kind = 'C'; s->sub = {genS(r, type, d - 1, dbl), genS(r, type, d - 1, dbl)}; return s; }
  if (d > 0 && k < 8) { s->kind = '?'; s->test = genTest(r, COND.at(type), 3, dbl); s->sub = {genS(r, type, d - 1, dbl)}; if (r.chance(0.6)) s->sub.push_back(genS(r, type, d - 1, dbl)); return s; }
  if (k == 8) { s->kind = 'E'; return s; }
  s->kind = 'M'; auto& ms = LANG.at(type); auto it = ms.begin(); std::advance(it, r.below((long)ms.size())); s->meth = it->first;
  vector<int> ix(it->second.size()); std::iota(ix.begin(), ix.end(), 0); r.shuffle(ix); double keep = r.unit();
  for (int i : ix) { const Par& p = it->second[i];
    if (p.kind == 's' ? d <= 0 : !r.chance(keep)) continue;
    if (p.kind == 's' && r.chance(0.3)) continue;
    s->order.push_back(p.name);
    if (p.kind == 'i') s->num[p.name] = r.chance(0.1) ? "-1" : fmt("%ld", r.chance(0.1) ? r.range(0, 2000000000) : r.range(0, 200));
    else if (p.kind == 'd') s->num[p.name] = r.chance(0.2) ? fmt("%ld", r.range(0, 3)) : r.chance(0.2) ? fmt("%ld.%lde-%ld", r.range(1, 9), r.range(0, 99), r.range(1, 9)) : r.chance(0.3) ? fmt("0.%09ld", r.range(1, 999999999)) : fmt("0.%ld", r.range(0, 999));
    else if (p.kind == 'c') s->num[p.name] = string(1, p.ext[r.below((long)strlen(p.ext))]);
    else s->str[p.name] = genS(r, p.ext[0], d - 1, dbl); }
  return s;
}
// ------------------------------------------------------------ writing with free layout
static Rng* g_r; static bool g_ws;
static string W() { if (!g_ws || !g_r->chance(0.15)) return ""; return string(1, " \t\n"[g_r->below(3)]); }
static int precT(char op) { switch (op) { case '|': return 0; case '&': return 1; case '!': return 2; case '<': case '=': case '>': return 3; case '+': case '-': return 4; case '*': return 5; case '%': return 6; default: return 7; } }
static string wrT(const TP& t) {
  if (t->op == 'n') return t->txt; if (t->op == 'v') return t->var;
  auto ch = [&](const TP& c, bool right) { bool need = precT(c->op) < precT(t->op) || (right && precT(c->op) == precT(t->op)); bool leaf = c->op == 'n' || c->op == 'v';
    return need || (!leaf && g_r->chance(0.3)) || (leaf && precT(t->op) >= 4 && g_r->chance(0.1)) ? "(" + W() + wrT(c) + W() + ")" : wrT(c); };
  if (t->op == '!') return "!" + W() + (t->a->op == '!' && g_r->chance(0.5) ? wrT(t->a) : "(" + wrT(t->a) + ")");
  string R = ch(t->b, true);
  return ch(t->a, false) + W() + t->op + W() + R;
}
static string wrS(const SP& s, int lvl = 0) {                               // lvl 0: alternatives allowed, 1: inside a concatenation
  string o;
  if (s->kind == 'S') { o = wrS(s->sub[0], 0); if (s->sub[0]->kind == 'S' && g_r->chance(0.5)) o = "(" + o + ")"; string b = wrS(s->sub[1], s->sub[1]->kind == 'S' ? 1 : 0); o += W() + "|" + W() + b; return lvl ? "(" + W() + o + W() + ")" : o; }
  if (s->kind == 'C') { string a = wrS(s->sub[0], 1), b = wrS(s->sub[1], 1); o = a + W() + b; return g_r->chance(0.1) ? "(" + o + ")" : o; }
  if (s->kind == '?') { o = "/" + W() + wrT(s->test) + W() + "?" + W() + wrS(s->sub[0]) + W(); if (s->sub.size() > 1) o += ":" + W() + wrS(s->sub[1]) + W(); return o + ";"; }
  if (s->kind == 'E') return lvl ? (g_r->chance(0.5) ? "()" : "") : "";
  o = string(1, s->meth);
  if (!s->order.empty()) { o += W() + "{"; bool f = true; for (auto& n : s->order) { o += (f ? "" : ",") + W() + n + W() + "=" + W() + (s->num.count(n) ? s->num[n] : wrS(s->str[n])) + W(); f = false; } o += "}"; }
  return g_r->chance(0.05) ? "(" + o + ")" : o;
}
// ------------------------------------------------------------ independent parser for saved strategies
struct SavedParser {
  const string& t; size_t i = 0; explicit SavedParser(const string& s) : t(s) {}
  void ws() { while (i < t.size() && isspace((unsigned char)t[i])) i++; }
  char pk() { ws(); return i < t.size() ? t[i] : 0; }
  void ex(char c) { if (pk() != c) viol("saved-syntax", "expected '%c' at offset %ld of saved strategy %s", c, (long)i, t.c_str()); i++; }
  SP sel(char ty) { SP l = cat(ty); while (pk() == '|') { i++; SP q(new SN); q->kind = 'S'; q->type = ty; SP rr = cat(ty); q->sub = {l, rr}; l = q; } return l; }
  SP cat(char ty) { SP l; for (;;) { char c = pk(); if (c == 0 || c == '|' || c == ')' || c == ';' || c == ':' || c == ',' || c == '}') break; SP n = one(ty); if (!l) l = n; else { SP q(new SN); q->kind = 'C'; q->type = ty; q->sub = {l, n}; l = q; } } if (!l) { l.reset(new SN); l->type = ty; } return l; }
  SP one(char ty) {
    char c = pk();
    if (c == '(') { i++; SP s = sel(ty); ex(')'); return s; }
    if (c == '/') { i++; SP s(new SN); s->kind = '?'; s->type = ty; s->test = tor(ty); ex('?'); s->sub = {sel(ty)}; if (pk() == ':') { i++; s->sub.push_back(sel(ty)); } ex(';'); return s; }
    SP s(new SN); s->kind = 'M'; s->type = ty; s->meth = c; i++;
    if (!LANG.at(ty).count(c)) viol("saved-syntax", "unknown method '%c' in saved strategy %s", c, t.c_str());
    if (pk() == '{') { do { i++; ws(); size_t b = i; while (isalnum((unsigned char)t[i])) i++; string n = t.substr(b, i - b); ex('=');
        const Par* p = nullptr; for (auto& q : LANG.at(ty).at(c)) if (n == q.name) p = &q;
        if (!p) viol("saved-syntax", "unknown parameter %s of method %c in saved strategy %s", n.c_str(), c, t.c_str());
        if (p->kind == 's') s->str[n] = sel(p->ext[0]); else { ws(); size_t e = i; while (i < t.size() && !strchr(",} \t\n", t[i])) i++; s->num[n] = t.substr(e, i - e); } } while (pk() == ','); ex('}'); }
    return s;
  }
  TP bin(char op, TP a, TP b) { TP q(new TN); q->op = op; q->a = a; q->b = b; return q; }
  TP tor(char ty) { TP l = tand(ty); while (pk() == '|') { i++; l = bin('|', l, tand(ty)); } return l; }
  TP tand(char ty) { TP l = tnot(ty); while (pk() == '&') { i++; l = bin('&', l, tnot(ty)); } return l; }
  TP tnot(char ty) {
    if (pk() == '!') { i++; TP q(new TN); q->op = '!'; q->a = tnot(ty); return q; }
    if (pk() == '(') {                                   // either a parenthesized condition or the start of an expression: look past the matching parenthesis
      size_t j = i; int d = 0; bool cond = false; for (; j < t.size(); j++) { if (t[j] == '(') d++; else if (t[j] == ')') { if (--d == 0) break; } else if (strchr("<=>&|!", t[j])) cond = true; }
      if (cond) { i++; TP q = tor(ty); ex(')'); return q; } }
    TP a = e1(ty); char c = pk(); if (c != '<' && c != '=' && c != '>') viol("saved-syntax", "expected relation at offset %ld of saved strategy %s", (long)i, t.c_str()); i++; return bin(c, a, e1(ty));
  }
  TP e1(char ty) { TP l = e2(ty); while (pk() == '+' || pk() == '-') { char c = t[i++]; l = bin(c, l, e2(ty)); } return l; }
  TP e2(char ty) { TP l = e3(ty); while (pk() == '*') { i++; l = bin('*', l, e3(ty)); } return l; }
  TP e3(char ty) { TP l = e4(ty); while (pk() == '%') { i++; l = bin('%', l, e4(ty)); } return l; }
  TP e4(char ty) {
    char c = pk(); if (c == '(') { i++; TP q = e1(ty); ex(')'); return q; }
    TP q(new TN);
    if (isalpha((unsigned char)c)) { size_t b = i; while (isalnum((unsigned char)t[i])) i++; q->op = 'v'; q->var = t.substr(b, i - b); for (auto v : COND.at(ty)) if (q->var == v) return q; viol("saved-syntax", "unknown variable %s in saved strategy %s", q->var.c_str(), t.c_str()); }
    char* e; q->val = strtod(t.c_str() + i, &e); if (e == t.c_str() + i) viol("saved-syntax", "expected value at offset %ld of saved strategy %s", (long)i, t.c_str()); i = e - t.c_str(); return q;
  }
};
// ------------------------------------------------------------ library access by type
static int parseLib(char type, SCOTCH_Strat* s, const string& t) {
  switch (type) { case 'K': return SCOTCH_stratGraphMap(s, t.c_str()); case 'O': return SCOTCH_stratGraphOrder(s, t.c_str()); case 'W': return SCOTCH_stratGraphPartOvl(s, t.c_str()); default: return SCOTCH_stratMeshOrder(s, t.c_str()); }
}
static string saveLib(SCOTCH_Strat* s) { MemFile m; mustOk(SCOTCH_stratSave(s, m.f), "stratSave"); return m.str(); }
static map<string, SP> g_def;                            // type+method -> all parameters at their defaults, read from the library itself
static SP findM(const SP& s, char ty, char m) { if (s->kind == 'M' && s->type == ty && s->meth == m) return s; for (auto& q : s->sub) if (auto f = findM(q, ty, m)) return f; for (auto& q : s->str) if (auto f = findM(q.second, ty, m)) return f; return nullptr; }
static void loadDefaults() {
  if (!g_def.empty()) return;
  static const map<char, pair<char, const char*>> host = {{'K', {'K', "%c"}}, {'B', {'K', "r{sep=%c}"}}, {'O', {'O', "%c"}}, {'V', {'O', "n{sep=%c}"}}, {'W', {'W', "%c"}}, {'H', {'H', "%c"}}, {'X', {'H', "n{sep=%c}"}}};
  for (auto& l : LANG) for (auto& m : l.second) { StratH s; auto h = host.at(l.first); mustOk(parseLib(h.first, s.s, fmt(h.second, m.first)), "default"); string t = saveLib(s.s); SavedParser p(t); SP a = p.sel(h.first); SP f = findM(a, l.first, m.first); if (!f) viol("default", "method %c lost in %s", m.first, t.c_str());
    for (auto& q : m.second) if (!f->num.count(q.name) && !f->str.count(q.name)) viol("saved-lacks", "parameter %s of method %c is not saved in %s", q.name, m.first, t.c_str());
    g_def[string(1, l.first) + m.first] = f; }
}
// Canonical text: concatenations flattened, empty members dropped, defaults filled in, tests replaced by place holders.
static string canon(const SP& s, vector<pair<TP, char>>& tests) {
  if (s->kind == 'E') return "";
  if (s->kind == 'C') return canon(s->sub[0], tests) + canon(s->sub[1], tests);
  if (s->kind == 'S') { string a = canon(s->sub[0], tests), b = canon(s->sub[1], tests); return "(" + a + "|" + b + ")"; }
  if (s->kind == '?') { tests.push_back({s->test, s->type}); string a = canon(s->sub[0], tests); string b = s->sub.size() > 1 ? canon(s->sub[1], tests) : ""; return "/#?" + a + ":" + b + ";"; }
  string o = string(1, s->meth) + "{"; SP d = g_def.at(string(1, s->type) + s->meth);
  for (auto& p : LANG.at(s->type).at(s->meth)) {
    if (p.kind == 's') { auto it = s->str.find(p.name); o += string(p.name) + "=" + canon(it != s->str.end() ? it->second : d->str[p.name], tests) + ","; }
    else { auto it = s->num.find(p.name); string v = it != s->num.end() ? it->second : d->num[p.name]; o += string(p.name) + "=" + (p.kind == 'c' ? v : fmt("%.14g", atof(v.c_str()))) + ","; } }
  return o + "}";
}
static void sameStrat(Rng& r, const SP& a, const SP& b, const char* what, const string& txt) {
  vector<pair<TP, char>> ta, tb; string ca = canon(a, ta), cb = canon(b, tb);
  CHECK(ca == cb, "meaning", "%s: asked %s, saved %s (text %s)", what, ca.c_str(), cb.c_str(), txt.c_str());
  CHECK(ta.size() == tb.size(), "meaning-tests", "%s: numbers of conditions differ (%s)", what, txt.c_str());
  for (size_t i = 0; i < ta.size(); i++) for (int q = 0; q < 25; q++) { map<string, double> m; for (auto v : COND.at(ta[i].second)) m[v] = (double)(r.chance(0.5) ? r.range(0, 20) : r.range(0, 200));
    CHECK(evalT(ta[i].first, m) == evalT(tb[i].first, m), "condition", "%s: condition %ld changed its value in saved text %s", what, (long)i, txt.c_str()); }
}
static string runStrat(char type, SCOTCH_Strat* s, PG& p, long k, PM* pm, string* err = nullptr) {
  SCOTCH_randomReset(); long n = p.g->n; string o; int rc; vector<Num> out(n), inv(n);
  if (type == 'K') rc = SCOTCH_graphPart(p.gr, (Num)k, s, out.data());
  else if (type == 'W') rc = SCOTCH_graphPartOvl(p.gr, (Num)k, s, out.data());
  else if (type == 'O') { Num cb; vector<Num> rg(n + 1), tr(n); rc = SCOTCH_graphOrder(p.gr, s, out.data(), inv.data(), &cb, rg.data(), tr.data()); o = fmt("%ld:", (long)cb); }
  else { long vn = (long)pm->m->nn; out.assign(vn, 0); inv.assign(vn, 0); Num cb; vector<Num> rg(vn + 1), tr(vn); rc = SCOTCH_meshOrder(pm->me, s, out.data(), inv.data(), &cb, rg.data(), tr.data()); o = fmt("%ld:", (long)cb); }
  mustOk(rc, "running strategy");
  for (Num x : out) o += fmt("%ld,", (long)x);
  return o;
}

static const char DMG[] = "(){}/?:;|=,.-+%*<>&!0123456789abcdefghmnrsz\"e \n";
static void runCase(long n, Rng& r) {
  loadDefaults(); g_r = &r; g_ws = r.chance(0.5); setThreads(1);
  static const char T[] = "KOWH"; char type = T[r.below(4)]; int mode = (int)r.below(10);
  if (mode < 4) {                                        // free generation: parse, save, compare meanings
    SP a = genS(r, type, 1 + (int)r.below(4), true); string t = wrS(a); if (t.size() > 6000) { feat("too-long"); return; }
    desc("%c %s", type, t.c_str()); feat(fmt("free:%c", type));
    StratH s; mustOk(parseLib(type, s.s, t), "parse of valid strategy");
    string t1 = saveLib(s.s); SavedParser sp(t1); SP b = sp.sel(type); CHECK(sp.pk() == 0, "saved-syntax", "trailing text in %s", t1.c_str());
    sameStrat(r, a, b, "save", t1);
    StratH s2; mustOk(parseLib(type, s2.s, t1), "parse of saved strategy"); string t2 = saveLib(s2.s); SavedParser sp2(t2); SP c = sp2.sel(type); sameStrat(r, b, c, "second save", t2);
    CHECK(t1 == t2, "save-fixpoint", "saved text %s is saved again as %s", t1.c_str(), t2.c_str());
    H.nontrivial++; sig(hashStr(t)); return;
  }
  if (mode < 6) {                                        // breaking one rule: must be refused, and the object stays usable
    SP a = genS(r, type, 1 + (int)r.below(3), true); string t = wrS(a), u = t; size_t at; const char* why;
    switch (r.below(9)) {
      case 0: u = t + ")"; why = "unbalanced parenthesis"; break;
      case 1: u = "(" + t; why = "unbalanced parenthesis"; break;
      case 2: u = t + (r.chance(0.5) ? "q" : "?"); why = "unknown method"; break;
      case 3: at = t.find('='); if (at == string::npos || at == 0 || !isalpha((unsigned char)t[at - 1])) { u = "m{vert}"; } else { size_t b = at; while (b > 0 && isalnum((unsigned char)t[b - 1])) b--; if (b == 0 || !strchr("{,", t[b - 1])) { u = "f{zzz=2}"; } else u = t.substr(0, b) + "zqz" + t.substr(at); } why = "unknown parameter"; break;
      case 4: at = t.rfind('}'); if (at == string::npos) u = t + "}"; else u = t.substr(0, at) + t.substr(at + 1); why = "missing brace"; break;
      case 5: u = t + "/(vert>3)?z"; why = "unfinished condition"; break;
      case 6: u = t + fmt("/(%s>3)?;", r.chance(0.5) ? "foo" : "ver"); why = "unknown variable"; break;
      case 7: { static const map<char, const char*> x = {{'K', "m{vert=abc}"}, {'O', "g{pass=x}"}, {'W', "f{bal=q}"}, {'H', "d{frat=}"}}; u = t + x.at(type); why = "not a number"; break; }
      default: { static const map<char, const char*> x = {{'K', "r{poli=q}"}, {'O', "n{sep=m{type=9}}"}, {'W', "r{sep=e{type=y}}"}, {'H', "n{sep=m{type=k}}"}}; u = t + x.at(type); why = "unknown switch"; } }
    desc("%c refuse (%s) %s", type, why, u.c_str()); feat(string("bad:") + why);
    StratH s; if (r.chance(0.5)) mustOk(parseLib(type, s.s, t), "valid strategy before");
    int rc = parseLib(type, s.s, u);
    CHECK(rc != 0, "accepted", "invalid strategy accepted (%s)", why); CHECK(g_errnbr > 0, "silent-refusal", "no error message for invalid strategy");
    errClear(); mustOk(parseLib(type, s.s, t), "valid strategy after refusal"); string t1 = saveLib(s.s); SavedParser sp(t1); sameStrat(r, a, sp.sel(type), "save after refusal", t1);
    H.nontrivial++; sig(hashStr(u)); return;
  }
  if (mode < 7) {                                        // random damage: either refused or accepted with a meaning that survives saving
    SP a = genS(r, type, 1 + (int)r.below(3), true); string t = wrS(a); long m = r.range(1, 4);
    for (long q = 0; q < m; q++) { size_t i = r.below((long)t.size() + 1); int w = (int)r.below(4); if (w == 0) t.insert(i, 1, DMG[r.below((long)sizeof(DMG) - 1)]); else if (w == 1 && i < t.size()) t.erase(i, 1 + r.below(4)); else if (w == 2 && i < t.size()) t[i] = (char)r.range(1, 255); else { size_t j = r.below((long)t.size() + 1); t.insert(j, t.substr(i, r.below(12))); } }
    { long run = 0; bool big = false; for (size_t i = 0; i < t.size(); i++) { if (isdigit((unsigned char)t[i])) { if (++run >= 10) big = true; } else run = 0; if ((t[i] == 'e' || t[i] == 'E') && i > 0 && isdigit((unsigned char)t[i - 1])) { size_t j = i + 1; if (j < t.size() && (t[j] == '+' || t[j] == '-')) j++; if (j + 1 < t.size() && isdigit((unsigned char)t[j])) big = true; } } if (big) { feat("damage:big-number"); return; } }   // numbers beyond the range of integers are not exercised
    desc("%c damage %s", type, t.c_str());
    StratH s; int rc = parseLib(type, s.s, t); if (rc != 0) { CHECK(g_errnbr > 0, "silent-refusal", "no message"); feat("damage:refused"); sig(hashStr(t)); return; }
    feat("damage:accepted"); errClear(); string t1 = saveLib(s.s); SavedParser sp(t1); SP b = sp.sel(type); StratH s2; mustOk(parseLib(type, s2.s, t1), "parse of saved strategy"); string t2 = saveLib(s2.s); CHECK(t1 == t2, "save-fixpoint", "saved text %s is saved again as %s", t1.c_str(), t2.c_str());
    H.nontrivial++; sig(hashStr(t)); return;
  }
  // with executions
  LG g = genGraph(r, 60); while (g.n < 3) g = genGraph(r, 60); if (r.chance(0.5)) addWeights(r, g, false);
  PG p; randomPG(r, p, g); long k = r.range(2, 6);
  LM lm; PM pm; if (type == 'H') { lm = genMesh(r, 30); randomPM(r, pm, lm); }
  desc("%s", showLG(g).c_str());
  if (mode < 8) {                                        // the value of a condition decides the branch
    if (type == 'H') type = 'O';
    double arcs = (double)g.arcs(), load = (double)g.velosum(), mdeg = (double)g.degmax();
    map<string, double> vals = {{"vert", (double)g.n}, {"edge", arcs}, {"load", load}, {"mdeg", mdeg}, {"levl", 0}, {"part", (double)k}};
    vector<const char*> vars; char host = type == 'O' && r.chance(0.5) ? 'V' : type == 'K' && r.chance(0.5) ? 'B' : type;
    for (auto v : COND.at(host)) if (vals.count(v)) vars.push_back(v);
    TP t = genTest(r, vars, 3, true);
    if (r.chance(0.5)) { TP b(new TN), a(new TN); a->op = 'v'; a->var = vars[r.below((long)vars.size())]; b->val = vals[a->var] + (double)r.range(-1, 1); if (b->val < 0) b->val = 0; b->txt = fmt("%ld", (long)b->val); TP q(new TN); q->op = "<=>"[r.below(3)]; q->a = a; q->b = b; if (r.chance(0.5)) t = q; else { TP z(new TN); z->op = "|&"[r.below(2)]; z->a = t; z->b = q; t = z; } }
    bool v = evalT(t, vals) != 0; string c = wrT(t), f, A, B;
    switch (host) {
      case 'K': A = "r{job=u,sep=z}"; B = "r{job=u,sep=h{pass=2}f}"; f = "/" + c + "?" + A + ":" + B + ";"; break;
      case 'B': k = 2; A = "r{job=u,sep=z}"; B = "r{job=u,sep=h{pass=2}f}"; f = "r{job=u,sep=/" + c + "?z:h{pass=2}f;}"; break;
      case 'W': A = "z"; B = "r{sep=h{pass=2}f}"; f = "/" + c + "?" + A + ":" + B + ";"; break;
      case 'O': A = "s"; B = "g"; f = "/" + c + "?" + A + ":" + B + ";"; break;
      default: A = "n{sep=/levl<1?h{pass=2};,ole=s,ose=s}"; B = "n{sep=,ole=s,ose=s}"; f = "n{sep=/levl<1?/" + c + "?h{pass=2};;,ole=s,ose=s}"; }
    desc("%c condition %d: %s", host, (int)v, f.c_str()); feat(fmt("condition:%c:%d", host, (int)v));
    StratH sf, sa, sb; mustOk(parseLib(type, sf.s, f), "parse"); mustOk(parseLib(type, sa.s, A), "parse"); mustOk(parseLib(type, sb.s, B), "parse");
    string rf = runStrat(type, sf.s, p, k, &pm), ra = runStrat(type, sa.s, p, k, &pm), rb = runStrat(type, sb.s, p, k, &pm);
    CHECK(rf == (v ? ra : rb), "branch", "condition evaluates to %d but the other branch was taken", (int)v);
    if (ra != rb) H.nontrivial++;
    sig(hashStr(f) + g.n); return;
  }
  StratH s; string t;
  if (mode < 9) {                                        // saved strategies behave identically
    if (type == 'K') t = genMapStrat(r, 2, false); else if (type == 'O') t = genOrd(r, 3); else if (type == 'W') t = fmt("m{vert=%ld,rat=0.%ld,low=r{sep=%s},asc=f{bal=%s,move=%ld}}", r.range(2, 40), r.range(50, 90), genSep(r, 2).c_str(), fbal(r).c_str(), r.range(0, 50));
    else t = fmt("n{sep=m{vnod=%ld,low=h{pass=%ld},asc=f{bal=%s,move=%ld}},ole=%s,ose=s}", r.range(3, 30), r.range(1, 5), fbal(r).c_str(), r.range(1, 60), r.chance(0.5) ? "s" : fmt("d{cmin=%ld,cmax=%ld,frat=0.%ld}", r.range(0, 10), r.range(10, 100), r.range(0, 30)).c_str());
    desc("%c run %s", type, t.c_str()); mustOk(parseLib(type, s.s, t), "parse"); feat(fmt("run:%c", type));
  } else {                                               // builders
    long f = 0; static const long fl[] = {SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE, SCOTCH_STRATDISCONNECTED};
    double pr = r.unit(); for (long x : fl) if (r.chance(pr)) f |= x;
    double bal = r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1e-7 * r.range(1, 100) : r.unit() * (r.chance(0.2) ? 20 : 1); long lv = r.chance(0.1) ? r.range(0, 1000000) : r.range(0, 6); long pn = r.chance(0.1) ? r.range(1, 1000000) : k;
    t = fmt("builder(%s,%ld,%ld,%g)", flagNames(f), pn, lv, bal); desc("%c %s", type, t.c_str()); feat(fmt("builder:%c", type)); int rc;
    if (type == 'K') rc = r.chance(0.7) ? SCOTCH_stratGraphMapBuild(s.s, (Num)f, (Num)pn, bal) : SCOTCH_stratGraphClusterBuild(s.s, (Num)f, (Num)r.range(1, 40), r.unit(), bal);
    else if (type == 'O') rc = SCOTCH_stratGraphOrderBuild(s.s, (Num)f, (Num)lv, bal); else if (type == 'W') rc = SCOTCH_stratGraphPartOvlBuild(s.s, (Num)f, (Num)std::min(pn, 1000L), bal); else rc = SCOTCH_stratMeshOrderBuild(s.s, (Num)f, bal);
    mustOk(rc, t.c_str());
  }
  string t1 = saveLib(s.s); SavedParser sp(t1); SP b = sp.sel(type); StratH s2; mustOk(parseLib(type, s2.s, t1), "parse of saved strategy"); string t2 = saveLib(s2.s); CHECK(t1 == t2, "save-fixpoint", "saved text %s is saved again as %s", t1.c_str(), t2.c_str());
  string r1 = runStrat(type, s.s, p, k, &pm), r2 = runStrat(type, s2.s, p, k, &pm);
  CHECK(r1 == r2, "behaviour", "strategy and its saved form give different results (%s)", t1.c_str());
  H.nontrivial++; sig(hashStr(t1) + g.n);
}
