// Reads an interface definition, has the Go generator write its code and describes the program in JSON.
//   idl FILE OUTDIR [DESC.json]
#include "t_generator.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using std::string;
using std::vector;
using std::map;

t_type* g_type_void = new t_base_type("void", t_base_type::TYPE_VOID);
t_type* g_type_string = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_binary = new t_base_type("string", t_base_type::TYPE_STRING);
t_type* g_type_bool = new t_base_type("bool", t_base_type::TYPE_BOOL);
t_type* g_type_byte = new t_base_type("byte", t_base_type::TYPE_BYTE);
t_type* g_type_i16 = new t_base_type("i16", t_base_type::TYPE_I16);
t_type* g_type_i32 = new t_base_type("i32", t_base_type::TYPE_I32);
t_type* g_type_i64 = new t_base_type("i64", t_base_type::TYPE_I64);
t_type* g_type_double = new t_base_type("double", t_base_type::TYPE_DOUBLE);
generator_maker make_generator = NULL;
bool used_go();

static void fail(const string& m) { throw m; }

struct Scope {
  map<string, t_type*> types;
  map<string, t_const*> consts;
  map<string, t_service*> services;
};

struct Parser {
  string path, text, tok, doc;
  enum { END, ID, INT, DBL, STR, SYM } kind;
  size_t at;
  int line;
  t_program* prog;
  Scope sc;
  map<string, Parser*> included;

  explicit Parser(const string& p) : path(p), kind(END), at(0), line(1) {
    std::ifstream in(p.c_str(), std::ios::binary);
    if (!in) fail("can not read " + p);
    std::stringstream s;
    s << in.rdbuf();
    text = s.str();
    string base = p.substr(p.rfind('/') + 1);
    prog = new t_program(p, base.substr(0, base.rfind('.')));
  }
  void bad(const string& m) {
    std::ostringstream o;
    o << path << ":" << line << ": " << m << " at '" << tok << "'";
    fail(o.str());
  }
  void next() {
    for (;;) {
      while (at < text.size() && isspace((unsigned char)text[at])) {
        if (text[at] == '\n') line++;
        at++;
      }
      if (at >= text.size()) { kind = END; tok = ""; return; }
      if (text[at] == '#' || text.compare(at, 2, "//") == 0) {
        while (at < text.size() && text[at] != '\n') at++;
        continue;
      }
      if (text.compare(at, 2, "/*") == 0) {
        size_t e = text.find("*/", at + 2);
        if (e == string::npos) bad("unfinished comment");
        for (size_t i = at; i < e; i++) line += text[i] == '\n';
        if (text.compare(at, 3, "/**") == 0 && e > at + 3) doc = clean(text.substr(at + 3, e - at - 3));
        at = e + 2;
        continue;
      }
      break;
    }
    char c = text[at];
    if (isalpha((unsigned char)c) || c == '_') {
      size_t s = at;
      while (at < text.size() && (isalnum((unsigned char)text[at]) || text[at] == '_' || text[at] == '.')) at++;
      kind = ID;
      tok = text.substr(s, at - s);
    } else if (isdigit((unsigned char)c) || ((c == '-' || c == '+') && at + 1 < text.size() && (isdigit((unsigned char)text[at + 1]) || text[at + 1] == '.'))) {
      size_t s = at++;
      kind = INT;
      if (text.compare(s, 2, "0x") == 0) {
        at++;
        while (at < text.size() && isxdigit((unsigned char)text[at])) at++;
      } else {
        while (at < text.size() && (isdigit((unsigned char)text[at]) || strchr(".eE", text[at]) || ((text[at] == '-' || text[at] == '+') && strchr("eE", text[at - 1])))) {
          if (!isdigit((unsigned char)text[at])) kind = DBL;
          at++;
        }
      }
      tok = text.substr(s, at - s);
    } else if (c == '"' || c == '\'') {
      tok = "";
      kind = STR;
      for (at++; at < text.size() && text[at] != c; at++) {
        if (text[at] == '\\' && at + 1 < text.size()) {
          at++;
          switch (text[at]) {
            case 'n': tok += '\n'; break;
            case 't': tok += '\t'; break;
            case 'r': tok += '\r'; break;
            default: tok += text[at];
          }
        } else tok += text[at];
      }
      at++;
    } else {
      kind = SYM;
      tok = string(1, c);
      at++;
    }
  }
  static string clean(const string& d) {
    std::stringstream in(d);
    string l, r;
    while (getline(in, l)) {
      size_t i = 0;
      while (i < l.size() && isspace((unsigned char)l[i])) i++;
      if (i < l.size() && l[i] == '*') i++;
      if (i < l.size() && l[i] == ' ') i++;
      l = l.substr(i);
      while (!l.empty() && isspace((unsigned char)l[l.size() - 1])) l.erase(l.size() - 1);
      if (!l.empty() || !r.empty()) r += l + "\n";
    }
    while (r.size() > 1 && r[r.size() - 1] == '\n' && r[r.size() - 2] == '\n') r.erase(r.size() - 1);
    return r;
  }
  bool is(const string& s) { return kind != STR && tok == s; }
  bool take(const string& s) { if (is(s)) { next(); return true; } return false; }
  void want(const string& s) { if (!take(s)) bad("expected " + s); }
  string id() { if (kind != ID) bad("expected a name"); string s = tok; next(); return s; }
  void sep() { if (!take(",")) take(";"); }
  void annotations() {
    if (!take("(")) return;
    while (!take(")")) {
      if (kind == END) bad("unfinished annotation");
      next();
    }
  }
  string takeDoc() { string d = doc; doc = ""; return d; }

  t_type* type() {
    t_type* t = NULL;
    if (take("map")) {
      want("<"); t_type* k = type(); want(","); t_type* v = type(); want(">");
      t = new t_map(k, v);
    } else if (take("list")) {
      want("<"); t_type* e = type(); want(">");
      t = new t_list(e);
    } else if (take("set")) {
      want("<"); t_type* e = type(); want(">");
      t = new t_set(e);
    } else {
      string n = id();
      if (n == "bool") t = g_type_bool;
      else if (n == "byte" || n == "i8") t = g_type_byte;
      else if (n == "i16") t = g_type_i16;
      else if (n == "i32") t = g_type_i32;
      else if (n == "i64") t = g_type_i64;
      else if (n == "double") t = g_type_double;
      else if (n == "string") t = g_type_string;
      else if (n == "binary") t = g_type_binary;
      else if (n == "void") t = g_type_void;
      else if (sc.types.count(n)) t = sc.types[n];
      else bad("unknown type " + n);
    }
    annotations();
    return t;
  }
  t_const_value* value() {
    t_const_value* v = new t_const_value();
    if (kind == INT) { v->set_integer(strtoll(tok.c_str(), NULL, 0)); next(); }
    else if (kind == DBL) { v->set_double(strtod(tok.c_str(), NULL)); next(); }
    else if (kind == STR) { v->set_string(tok); next(); }
    else if (kind == ID) {
      if (is("true")) { v->set_integer(1); next(); }
      else if (is("false")) { v->set_integer(0); next(); }
      else v->set_identifier(id());
    } else if (take("[")) {
      v->set_list();
      while (!take("]")) { v->add_list(value()); sep(); }
    } else if (take("{")) {
      v->set_map();
      while (!take("}")) { t_const_value* k = value(); want(":"); v->add_map(k, value()); sep(); }
    } else bad("expected a value");
    return v;
  }
  void resolve(t_const_value* v, t_type* t) {
    while (t->is_typedef()) t = ((t_typedef*)t)->get_type();
    if (t->is_map()) {
      for (size_t i = 0; i < v->order().size(); i++) {
        resolve(v->order()[i], ((t_map*)t)->get_key_type());
        resolve(v->get_map().find(v->order()[i])->second, ((t_map*)t)->get_val_type());
      }
    } else if (t->is_list() || t->is_set()) {
      for (size_t i = 0; i < v->get_list().size(); i++)
        resolve(v->get_list()[i], t->is_list() ? ((t_list*)t)->get_elem_type() : ((t_set*)t)->get_elem_type());
    } else if (t->is_struct() || t->is_xception()) {
      for (size_t i = 0; i < v->order().size(); i++) {
        t_field* f = ((t_struct*)t)->get_field_by_name(v->order()[i]->get_string());
        if (f == NULL) bad("no field " + v->order()[i]->get_string());
        resolve(v->get_map().find(v->order()[i])->second, f->get_type());
      }
    } else if (v->get_type() == t_const_value::CV_IDENTIFIER) {
      if (t->is_enum()) { v->set_enum((t_enum*)t); v->get_integer(); return; }
      if (!sc.consts.count(v->get_identifier())) bad("no constant " + v->get_identifier());
      t_const* c = sc.consts[v->get_identifier()];
      t_type* ct = c->get_type();
      if (ct->is_base_type()) {
        switch (((t_base_type*)ct)->get_base()) {
          case t_base_type::TYPE_STRING: v->set_string(c->get_value()->get_string()); break;
          case t_base_type::TYPE_DOUBLE: v->set_double(c->get_value()->get_double()); break;
          default: v->set_integer(c->get_value()->get_integer());
        }
      } else bad("constants can only refer to simple constants here");
    } else if (t->is_enum()) {
      t_enum_value* e = ((t_enum*)t)->get_constant_by_value(v->get_integer());
      if (e == NULL) bad("no such value in enum");
      v->set_identifier(t->get_name() + "." + e->get_name());
      v->set_enum((t_enum*)t);
    }
  }
  void fields(t_struct* s, const string& end) {
    int next_key = -1;
    while (!take(end)) {
      string d0 = takeDoc();
      int key;
      if (kind == INT) {
        key = atoi(tok.c_str());
        next();
        want(":");
      } else key = next_key--;
      t_field::e_req req = t_field::T_OPT_IN_REQ_OUT;
      if (take("required")) req = t_field::T_REQUIRED;
      else if (take("optional")) req = t_field::T_OPTIONAL;
      t_type* t = type();
      string n = id();
      t_field* f = new t_field(t, n, key);
      f->set_req(req);
      if (take("=")) {
        t_const_value* v = value();
        resolve(v, t);
        f->set_value(v);
      }
      annotations();
      if (d0 != "") f->set_doc(d0);
      sep();
      if (!s->append(f)) bad("field key used twice");
    }
  }
  void add(const string& n, t_type* t) { sc.types[n] = t; }
  void parse() {
    next();
    while (kind != END) {
      string d = takeDoc();
      if (take("include")) {
        string f = tok;
        next();
        string dir = path.find('/') == string::npos ? "" : path.substr(0, path.rfind('/') + 1);
        Parser* p = new Parser(dir + f);
        p->parse();
        prog->includes_.push_back(p->prog);
        string pre = p->prog->get_name() + ".";
        for (map<string, t_type*>::iterator i = p->sc.types.begin(); i != p->sc.types.end(); ++i)
          if (i->second->get_program() == p->prog) add(pre + i->first, i->second);
        for (map<string, t_const*>::iterator i = p->sc.consts.begin(); i != p->sc.consts.end(); ++i) sc.consts[pre + i->first] = i->second;
        for (map<string, t_service*>::iterator i = p->sc.services.begin(); i != p->sc.services.end(); ++i) sc.services[pre + i->first] = i->second;
      } else if (take("namespace")) {
        string lang = is("*") ? (next(), "*") : id();
        string ns = id();
        prog->set_namespace(lang, ns);
      } else if (take("cpp_include")) {
        next();
      } else if (take("typedef")) {
        t_type* t = type();
        string n = id();
        t_typedef* x = new t_typedef(prog, t, n);
        if (d != "") x->set_doc(d);
        annotations(); sep();
        prog->typedefs_.push_back(x);
        add(n, x);
      } else if (take("const")) {
        t_type* t = type();
        string n = id();
        want("=");
        t_const_value* v = value();
        sep();
        resolve(v, t);
        t_const* c = new t_const(t, n, v);
        if (d != "") c->set_doc(d);
        prog->consts_.push_back(c);
        sc.consts[n] = c;
      } else if (take("enum")) {
        t_enum* e = new t_enum(prog);
        e->set_name(id());
        if (d != "") e->set_doc(d);
        want("{");
        int last = -1;
        while (!take("}")) {
          string vd = takeDoc();
          string n = id();
          t_enum_value* v;
          if (take("=")) {
            if (kind != INT) bad("expected a number");
            v = new t_enum_value(n, atoi(tok.c_str()));
            next();
          } else {
            v = new t_enum_value(n);
          }
          // numbers that are not given are up to the generator
          last = v->has_value() ? v->get_value() : last + 1;
          v->set_resolved(last);
          if (vd != "") v->set_doc(vd);
          annotations(); sep();
          e->append(v);
          t_const_value* cv = new t_const_value();
          cv->set_integer(last);
          cv->set_enum(e);
          sc.consts[e->get_name() + "." + n] = new t_const(g_type_i32, n, cv);
        }
        annotations(); sep();
        prog->enums_.push_back(e);
        add(e->get_name(), e);
      } else if (is("struct") || is("union") || is("exception")) {
        string k = tok;
        next();
        t_struct* s = new t_struct(prog, id());
        s->set_xception(k == "exception");
        s->set_union(k == "union");
        if (d != "") s->set_doc(d);
        take("xsd_all");
        want("{");
        fields(s, "}");
        annotations(); sep();
        prog->objects_.push_back(s);
        (k == "exception" ? prog->xceptions_ : prog->structs_).push_back(s);
        add(s->get_name(), s);
      } else if (take("service")) {
        t_service* s = new t_service(prog);
        s->set_name(id());
        if (d != "") s->set_doc(d);
        if (take("extends")) {
          string n = id();
          if (!sc.services.count(n)) bad("unknown service " + n);
          s->set_extends(sc.services[n]);
        }
        want("{");
        while (!take("}")) {
          string fd = takeDoc();
          bool oneway = take("oneway");
          t_type* r = type();
          string n = id();
          want("(");
          t_struct* a = new t_struct(prog, n + "_args");
          fields(a, ")");
          t_struct* x = new t_struct(prog);
          if (take("throws")) {
            want("(");
            fields(x, ")");
          }
          annotations(); sep();
          t_function* f = new t_function(r, n, a, x, oneway);
          if (fd != "") f->set_doc(fd);
          s->add_function(f);
        }
        annotations(); sep();
        prog->services_.push_back(s);
        sc.services[s->get_name()] = s;
      } else bad("unexpected");
    }
  }
};

// ---------------------------------------------------------------- description

static string q(const string& s) {
  string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    char b[8];
    if (c < 32 || c == '"' || c == '\\' || c == 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static string num(long long n) { std::ostringstream o; o << n; return o.str(); }

static string desc(t_type* t) {
  if (t->is_typedef()) return "{\"k\":\"typedef\",\"name\":" + q(t->get_name()) + ",\"prog\":" + q(t->get_program()->get_name()) + ",\"of\":" + desc(((t_typedef*)t)->get_type()) + "}";
  if (t->is_base_type()) return "{\"k\":" + q(((t_base_type*)t)->is_binary() ? "binary" : t->get_name()) + "}";
  if (t->is_map()) return "{\"k\":\"map\",\"key\":" + desc(((t_map*)t)->get_key_type()) + ",\"val\":" + desc(((t_map*)t)->get_val_type()) + "}";
  if (t->is_list()) return "{\"k\":\"list\",\"val\":" + desc(((t_list*)t)->get_elem_type()) + "}";
  if (t->is_set()) return "{\"k\":\"set\",\"val\":" + desc(((t_set*)t)->get_elem_type()) + "}";
  return "{\"k\":" + q(t->is_enum() ? "enum" : t->is_xception() ? "exception" : "struct") + ",\"name\":" + q(t->get_name()) + ",\"prog\":" + q(t->get_program()->get_name()) + "}";
}

static string desc(const t_const_value* v) {
  char b[64];
  switch (v->get_type()) {
    case t_const_value::CV_INTEGER: return "{\"int\":" + num(v->get_integer()) + "}";
    case t_const_value::CV_IDENTIFIER: return "{\"int\":" + num(v->get_integer()) + ",\"id\":" + q(v->get_identifier()) + "}";
    case t_const_value::CV_DOUBLE: snprintf(b, sizeof b, "{\"double\":\"%.17g\"}", v->get_double()); return b;
    case t_const_value::CV_STRING: return "{\"str\":" + q(v->get_string()) + "}";
    case t_const_value::CV_LIST: {
      string r;
      for (size_t i = 0; i < v->get_list().size(); i++) r += (i ? "," : "") + desc(v->get_list()[i]);
      return "{\"list\":[" + r + "]}";
    }
    default: {
      string r;
      for (size_t i = 0; i < v->order().size(); i++) r += (i ? ",[" : "[") + desc(v->order()[i]) + "," + desc(v->get_map().find(v->order()[i])->second) + "]";
      return "{\"map\":[" + r + "]}";
    }
  }
}

static string desc(t_struct* s) {
  string r;
  static const char* req[] = {"required", "optional", "default"};
  for (size_t i = 0; i < s->get_members().size(); i++) {
    t_field* f = s->get_members()[i];
    r += string(i ? "," : "") + "{\"name\":" + q(f->get_name()) + ",\"id\":" + num(f->get_key()) + ",\"req\":" + q(req[f->get_req()]) + ",\"type\":" + desc(f->get_type());
    if (f->get_value()) r += ",\"default\":" + desc(f->get_value());
    r += "}";
  }
  return "{\"name\":" + q(s->get_name()) + ",\"exception\":" + (s->is_xception() ? "true" : "false") + ",\"fields\":[" + r + "]}";
}

static string desc(t_program* p) {
  string r = "{\"name\":" + q(p->get_name()) + ",\"ns\":" + q(p->get_namespace("go")) + ",\"enums\":[";
  for (size_t i = 0; i < p->enums_.size(); i++) {
    r += string(i ? "," : "") + "{\"name\":" + q(p->enums_[i]->get_name()) + ",\"values\":[";
    const vector<t_enum_value*>& v = p->enums_[i]->get_constants();
    for (size_t k = 0; k < v.size(); k++) r += string(k ? "," : "") + "[" + q(v[k]->get_name()) + "," + num(v[k]->resolved()) + "]";
    r += "]}";
  }
  r += "],\"typedefs\":[";
  for (size_t i = 0; i < p->typedefs_.size(); i++) r += (i ? "," : "") + desc((t_type*)p->typedefs_[i]);
  r += "],\"structs\":[";
  for (size_t i = 0; i < p->objects_.size(); i++) r += (i ? "," : "") + desc(p->objects_[i]);
  r += "],\"consts\":[";
  for (size_t i = 0; i < p->consts_.size(); i++)
    r += string(i ? "," : "") + "{\"name\":" + q(p->consts_[i]->get_name()) + ",\"type\":" + desc(p->consts_[i]->get_type()) + ",\"value\":" + desc(p->consts_[i]->get_value()) + "}";
  r += "],\"services\":[";
  for (size_t i = 0; i < p->services_.size(); i++) {
    t_service* s = p->services_[i];
    r += string(i ? "," : "") + "{\"name\":" + q(s->get_name()) + ",\"extends\":";
    r += s->get_extends() ? "[" + q(s->get_extends()->get_program()->get_name()) + "," + q(s->get_extends()->get_name()) + "]" : string("null");
    r += ",\"functions\":[";
    for (size_t k = 0; k < s->get_functions().size(); k++) {
      t_function* f = s->get_functions()[k];
      r += string(k ? "," : "") + "{\"name\":" + q(f->get_name()) + ",\"oneway\":" + (f->is_oneway() ? "true" : "false") + ",\"returns\":" + desc(f->get_returntype()) +
           ",\"args\":" + desc(f->get_arglist()) + ",\"throws\":" + desc(f->get_xceptions()) + "}";
    }
    r += "]}";
  }
  return r + "]}";
}

static void generate(t_program* p, const string& out, vector<string>& descs) {
  for (size_t i = 0; i < p->get_includes().size(); i++) generate(p->get_includes()[i], out, descs);
  p->set_out_path(out);
  t_generator* g = make_generator(p, map<string, string>(), "");
  g->generate_program();
  delete g;
  descs.push_back(desc(p));
}

int main(int argc, char** argv) {
  if (argc < 3 || !used_go()) return 4;
  ((t_base_type*)g_type_binary)->set_binary(true);
  Parser* p = NULL;
  try {
    p = new Parser(argv[1]);
    p->parse();
  } catch (const string& s) {
    fprintf(stderr, "IDL: %s\n", s.c_str());
    return 3;
  }
  vector<string> descs;
  try {
    generate(p->prog, string(argv[2]) + "/", descs);
  } catch (const string& s) {
    fprintf(stderr, "GENERATOR: %s\n", s.c_str());
    return 1;
  } catch (const char* s) {
    fprintf(stderr, "GENERATOR: %s\n", s);
    return 1;
  }
  if (argc > 3) {
    std::ofstream o(argv[3]);
    o << "[";
    for (size_t i = 0; i < descs.size(); i++) o << (i ? ",\n" : "") << descs[i];
    o << "]\n";
  }
  return 0;
}
