// The parts of the Thrift 0.9.0 compiler that the Go generator is compiled against: its model of a
// program and the base class of generators, written anew after the documented interface.
#ifndef VERIF_T_GENERATOR_H
#define VERIF_T_GENERATOR_H
#include <stdint.h>
#include <ctype.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

class t_program;
class t_enum;

class t_doc {
 public:
  t_doc() : has_doc_(false) {}
  void set_doc(const std::string& d) { doc_ = d; has_doc_ = true; }
  const std::string& get_doc() const { return doc_; }
  bool has_doc() { return has_doc_; }
 private:
  bool has_doc_;
  std::string doc_;
};

class t_type : public t_doc {
 public:
  virtual ~t_type() {}
  virtual void set_name(const std::string& name) { name_ = name; }
  virtual const std::string& get_name() const { return name_; }
  virtual bool is_void() const { return false; }
  virtual bool is_base_type() const { return false; }
  virtual bool is_string() const { return false; }
  virtual bool is_bool() const { return false; }
  virtual bool is_typedef() const { return false; }
  virtual bool is_enum() const { return false; }
  virtual bool is_struct() const { return false; }
  virtual bool is_xception() const { return false; }
  virtual bool is_container() const { return false; }
  virtual bool is_list() const { return false; }
  virtual bool is_set() const { return false; }
  virtual bool is_map() const { return false; }
  virtual bool is_service() const { return false; }
  t_program* get_program() { return program_; }
  const t_program* get_program() const { return program_; }
 protected:
  t_type() : program_(NULL) {}
  explicit t_type(t_program* p) : program_(p) {}
  t_type(t_program* p, const std::string& n) : program_(p), name_(n) {}
  explicit t_type(const std::string& n) : program_(NULL), name_(n) {}
  t_program* program_;
  std::string name_;
};

class t_base_type : public t_type {
 public:
  enum t_base { TYPE_VOID, TYPE_STRING, TYPE_BOOL, TYPE_BYTE, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_DOUBLE };
  t_base_type(const std::string& name, t_base base) : t_type(name), base_(base), binary_(false), string_list_(false), string_enum_(false) {}
  t_base get_base() const { return base_; }
  bool is_void() const { return base_ == TYPE_VOID; }
  bool is_string() const { return base_ == TYPE_STRING; }
  bool is_bool() const { return base_ == TYPE_BOOL; }
  bool is_base_type() const { return true; }
  void set_binary(bool b) { binary_ = b; }
  bool is_binary() const { return binary_ && base_ == TYPE_STRING; }
  bool is_string_list() const { return string_list_; }
  bool is_string_enum() const { return string_enum_; }
  static std::string t_base_name(t_base b) {
    static const char* names[] = {"void", "string", "bool", "byte", "i16", "i32", "i64", "double"};
    return b >= TYPE_VOID && b <= TYPE_DOUBLE ? names[b] : "(unknown)";
  }
 private:
  t_base base_;
  bool binary_, string_list_, string_enum_;
};

class t_typedef : public t_type {
 public:
  t_typedef(t_program* p, t_type* type, const std::string& symbolic) : t_type(p, symbolic), type_(type), symbolic_(symbolic) {}
  t_type* get_type() const { return type_; }
  virtual const std::string& get_symbolic() const { return symbolic_; }
  bool is_typedef() const { return true; }
 private:
  t_type* type_;
  std::string symbolic_;
};

class t_container : public t_type {
 public:
  t_container() : cpp_name_(), has_cpp_name_(false) {}
  void set_cpp_name(std::string n) { cpp_name_ = n; has_cpp_name_ = true; }
  bool has_cpp_name() { return has_cpp_name_; }
  std::string get_cpp_name() { return cpp_name_; }
  bool is_container() const { return true; }
 private:
  std::string cpp_name_;
  bool has_cpp_name_;
};

class t_list : public t_container {
 public:
  explicit t_list(t_type* e) : elem_(e) {}
  t_type* get_elem_type() const { return elem_; }
  bool is_list() const { return true; }
 private:
  t_type* elem_;
};

class t_set : public t_container {
 public:
  explicit t_set(t_type* e) : elem_(e) {}
  t_type* get_elem_type() const { return elem_; }
  bool is_set() const { return true; }
 private:
  t_type* elem_;
};

class t_map : public t_container {
 public:
  t_map(t_type* k, t_type* v) : key_(k), val_(v) {}
  t_type* get_key_type() const { return key_; }
  t_type* get_val_type() const { return val_; }
  bool is_map() const { return true; }
 private:
  t_type *key_, *val_;
};

class t_enum_value : public t_doc {
 public:
  explicit t_enum_value(std::string name) : name_(name), has_value_(false), value_(0) {}
  t_enum_value(std::string name, int value) : name_(name), has_value_(true), value_(value) {}
  const std::string& get_name() { return name_; }
  bool has_value() { return has_value_; }
  int get_value() { return value_; }
  void set_value(int v) { has_value_ = true; value_ = v; }
  // not known to generators
  void set_resolved(int v) { resolved_ = v; }
  int resolved() const { return resolved_; }
 private:
  std::string name_;
  int resolved_;
  bool has_value_;
  int value_;
};

class t_enum : public t_type {
 public:
  explicit t_enum(t_program* p) : t_type(p) {}
  void append(t_enum_value* v) { constants_.push_back(v); }
  const std::vector<t_enum_value*>& get_constants() { return constants_; }
  t_enum_value* get_constant_by_name(const std::string& n) {
    for (size_t i = 0; i < constants_.size(); i++)
      if (constants_[i]->get_name() == n) return constants_[i];
    return NULL;
  }
  t_enum_value* get_constant_by_value(int64_t v) {
    for (size_t i = 0; i < constants_.size(); i++)
      if (constants_[i]->resolved() == v) return constants_[i];
    return NULL;
  }
  bool is_enum() const { return true; }
 private:
  std::vector<t_enum_value*> constants_;
};

class t_const_value {
 public:
  enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };
  t_const_value() : intVal_(0), doubleVal_(0), enum_(NULL), valType_(CV_INTEGER) {}
  void set_string(std::string v) { valType_ = CV_STRING; stringVal_ = v; }
  std::string get_string() const { return stringVal_; }
  void set_integer(int64_t v) { valType_ = CV_INTEGER; intVal_ = v; }
  int64_t get_integer() const {
    if (valType_ != CV_IDENTIFIER) return intVal_;
    if (enum_ == NULL) throw "have identifier \"" + identifierVal_ + "\", but unset enum on line!";
    std::string id = identifierVal_;
    std::string::size_type dot = id.rfind('.');
    if (dot != std::string::npos) id = id.substr(dot + 1);
    t_enum_value* v = enum_->get_constant_by_name(id);
    if (v == NULL) throw "Unable to find enum value \"" + id + "\" in enum \"" + enum_->get_name() + "\"";
    return v->resolved();
  }
  void set_double(double v) { valType_ = CV_DOUBLE; doubleVal_ = v; }
  double get_double() const { return doubleVal_; }
  void set_map() { valType_ = CV_MAP; }
  void add_map(t_const_value* k, t_const_value* v) { mapVal_[k] = v; order_.push_back(k); }
  const std::map<t_const_value*, t_const_value*>& get_map() const { return mapVal_; }
  const std::vector<t_const_value*>& order() const { return order_; }
  void set_list() { valType_ = CV_LIST; }
  void add_list(t_const_value* v) { listVal_.push_back(v); }
  const std::vector<t_const_value*>& get_list() const { return listVal_; }
  void set_identifier(std::string v) { valType_ = CV_IDENTIFIER; identifierVal_ = v; }
  std::string get_identifier() const { return identifierVal_; }
  void set_enum(t_enum* e) { enum_ = e; }
  t_const_value_type get_type() const { return valType_; }
 private:
  std::map<t_const_value*, t_const_value*> mapVal_;
  std::vector<t_const_value*> order_;
  std::vector<t_const_value*> listVal_;
  std::string stringVal_;
  int64_t intVal_;
  double doubleVal_;
  std::string identifierVal_;
  t_enum* enum_;
  t_const_value_type valType_;
};

class t_const : public t_doc {
 public:
  t_const(t_type* type, std::string name, t_const_value* value) : type_(type), name_(name), value_(value) {}
  t_type* get_type() const { return type_; }
  std::string get_name() const { return name_; }
  t_const_value* get_value() const { return value_; }
 private:
  t_type* type_;
  std::string name_;
  t_const_value* value_;
};

class t_field : public t_doc {
 public:
  enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };
  t_field(t_type* type, std::string name) : type_(type), name_(name), key_(0), req_(T_OPT_IN_REQ_OUT), value_(NULL) {}
  t_field(t_type* type, std::string name, int32_t key) : type_(type), name_(name), key_(key), req_(T_OPT_IN_REQ_OUT), value_(NULL) {}
  t_type* get_type() { return type_; }
  const t_type* get_type() const { return type_; }
  const std::string& get_name() const { return name_; }
  int32_t get_key() const { return key_; }
  e_req get_req() const { return req_; }
  void set_req(e_req r) { req_ = r; }
  void set_value(t_const_value* v) { value_ = v; }
  t_const_value* get_value() { return value_; }
  const t_const_value* get_value() const { return value_; }
 private:
  t_type* type_;
  std::string name_;
  int32_t key_;
  e_req req_;
  t_const_value* value_;
};

class t_struct : public t_type {
 public:
  typedef std::vector<t_field*> members_type;
  explicit t_struct(t_program* p) : t_type(p), xception_(false), union_(false) {}
  t_struct(t_program* p, const std::string& n) : t_type(p, n), xception_(false), union_(false) {}
  void set_xception(bool b) { xception_ = b; }
  void set_union(bool b) { union_ = b; }
  bool append(t_field* f) {
    members_type::iterator at = sorted_.begin();
    while (at != sorted_.end() && (*at)->get_key() < f->get_key()) ++at;
    if (at != sorted_.end() && (*at)->get_key() == f->get_key()) return false;
    members_.push_back(f);
    sorted_.insert(at, f);
    return true;
  }
  const members_type& get_members() { return members_; }
  const members_type& get_sorted_members() { return sorted_; }
  bool is_struct() const { return !xception_; }
  bool is_xception() const { return xception_; }
  bool is_union() const { return union_; }
  t_field* get_field_by_name(const std::string& n) {
    for (size_t i = 0; i < members_.size(); i++)
      if (members_[i]->get_name() == n) return members_[i];
    return NULL;
  }
 private:
  members_type members_, sorted_;
  bool xception_, union_;
};

class t_function : public t_doc {
 public:
  t_function(t_type* r, std::string n, t_struct* a, bool oneway = false)
      : returntype_(r), name_(n), arglist_(a), xceptions_(new t_struct(NULL)), oneway_(oneway) {}
  t_function(t_type* r, std::string n, t_struct* a, t_struct* x, bool oneway = false)
      : returntype_(r), name_(n), arglist_(a), xceptions_(x), oneway_(oneway) {}
  t_type* get_returntype() const { return returntype_; }
  const std::string& get_name() const { return name_; }
  t_struct* get_arglist() const { return arglist_; }
  t_struct* get_xceptions() const { return xceptions_; }
  bool is_oneway() const { return oneway_; }
 private:
  t_type* returntype_;
  std::string name_;
  t_struct *arglist_, *xceptions_;
  bool oneway_;
};

class t_service : public t_type {
 public:
  explicit t_service(t_program* p) : t_type(p), extends_(NULL) {}
  bool is_service() const { return true; }
  void set_extends(t_service* e) { extends_ = e; }
  void add_function(t_function* f) { functions_.push_back(f); }
  const std::vector<t_function*>& get_functions() const { return functions_; }
  t_service* get_extends() { return extends_; }
 private:
  std::vector<t_function*> functions_;
  t_service* extends_;
};

class t_program : public t_doc {
 public:
  t_program(std::string path, std::string name) : path_(path), name_(name), out_path_("./") {}
  const std::string& get_path() const { return path_; }
  const std::string& get_name() const { return name_; }
  const std::string& get_out_path() const { return out_path_; }
  void set_out_path(std::string p) { out_path_ = p; }
  const std::vector<t_typedef*>& get_typedefs() const { return typedefs_; }
  const std::vector<t_enum*>& get_enums() const { return enums_; }
  const std::vector<t_const*>& get_consts() const { return consts_; }
  const std::vector<t_struct*>& get_structs() const { return structs_; }
  const std::vector<t_struct*>& get_xceptions() const { return xceptions_; }
  const std::vector<t_struct*>& get_objects() const { return objects_; }
  const std::vector<t_service*>& get_services() const { return services_; }
  const std::vector<t_program*>& get_includes() const { return includes_; }
  std::vector<t_program*>& get_includes() { return includes_; }
  void set_namespace(std::string lang, std::string ns) { namespaces_[lang] = ns; }
  std::string get_namespace(std::string lang) const {
    std::map<std::string, std::string>::const_iterator i = namespaces_.find(lang);
    if (i == namespaces_.end()) i = namespaces_.find("*");
    return i == namespaces_.end() ? std::string() : i->second;
  }
  std::vector<t_typedef*> typedefs_;
  std::vector<t_enum*> enums_;
  std::vector<t_const*> consts_;
  std::vector<t_struct*> objects_, structs_, xceptions_;
  std::vector<t_service*> services_;
  std::vector<t_program*> includes_;
 private:
  std::string path_, name_, out_path_;
  std::map<std::string, std::string> namespaces_;
};

extern t_type *g_type_void, *g_type_string, *g_type_binary, *g_type_bool, *g_type_byte, *g_type_i16, *g_type_i32, *g_type_i64, *g_type_double;

class t_generator {
 public:
  explicit t_generator(t_program* program) : program_(program), program_name_(program->get_name()), indent_(0), tmp_(0) {
    escape_['\n'] = "\\n";
    escape_['\r'] = "\\r";
    escape_['\t'] = "\\t";
    escape_['"'] = "\\\"";
    escape_['\\'] = "\\\\";
  }
  virtual ~t_generator() {}

  virtual void generate_program() {
    init_generator();
    for (size_t i = 0; i < program_->enums_.size(); i++) generate_enum(program_->enums_[i]);
    for (size_t i = 0; i < program_->typedefs_.size(); i++) generate_typedef(program_->typedefs_[i]);
    for (size_t i = 0; i < program_->objects_.size(); i++) {
      if (program_->objects_[i]->is_xception()) generate_xception(program_->objects_[i]);
      else generate_struct(program_->objects_[i]);
    }
    generate_consts(program_->consts_);
    for (size_t i = 0; i < program_->services_.size(); i++) {
      service_name_ = program_->services_[i]->get_name();
      generate_service(program_->services_[i]);
    }
    close_generator();
  }

  const t_program* get_program() const { return program_; }

  void generate_docstring_comment(std::ofstream& out, const std::string& start, const std::string& line, const std::string& contents, const std::string& end) {
    if (start != "") indent(out) << start;
    std::stringstream docs(contents, std::ios_base::in);
    while (!docs.eof()) {
      char text[1024];
      docs.getline(text, 1024);
      if (strlen_(text) > 0 || !docs.eof()) indent(out) << line << text << std::endl;
    }
    if (end != "") indent(out) << end;
  }

 protected:
  virtual void init_generator() {}
  virtual void close_generator() {}
  virtual void generate_consts(std::vector<t_const*> consts) {
    for (size_t i = 0; i < consts.size(); i++) generate_const(consts[i]);
  }
  virtual void generate_typedef(t_typedef*) = 0;
  virtual void generate_enum(t_enum*) = 0;
  virtual void generate_const(t_const*) {}
  virtual void generate_struct(t_struct*) = 0;
  virtual void generate_service(t_service*) = 0;
  virtual void generate_xception(t_struct* x) { generate_struct(x); }

  std::string get_escaped_string(t_const_value* v) { return escape_string(v->get_string()); }
  std::string escape_string(const std::string& in) const {
    std::string r;
    for (size_t i = 0; i < in.size(); i++) {
      std::map<char, std::string>::const_iterator e = escape_.find(in[i]);
      if (e != escape_.end()) r += e->second;
      else r += in[i];
    }
    return r;
  }
  std::string get_out_dir() const { return program_->get_out_path() + out_dir_base_ + "/"; }
  std::string tmp(std::string name) {
    std::ostringstream o;
    o << name << tmp_++;
    return o.str();
  }
  void indent_up() { ++indent_; }
  void indent_down() { --indent_; }
  virtual std::string indent_str() const { return "  "; }
  std::string indent() {
    std::string r;
    for (int i = 0; i < indent_; i++) r += indent_str();
    return r;
  }
  std::ostream& indent(std::ostream& os) { return os << indent(); }
  void scope_up(std::ostream& out) { indent(out) << "{" << std::endl; indent_up(); }
  void scope_down(std::ostream& out) { indent_down(); indent(out) << "}" << std::endl; }
  std::string capitalize(std::string in) { if (!in.empty()) in[0] = toupper(in[0]); return in; }
  std::string decapitalize(std::string in) { if (!in.empty()) in[0] = tolower(in[0]); return in; }
  static std::string lowercase(std::string in) { for (size_t i = 0; i < in.size(); i++) in[i] = tolower(in[i]); return in; }
  static t_type* get_true_type(t_type* t) {
    while (t->is_typedef()) t = static_cast<t_typedef*>(t)->get_type();
    return t;
  }

  t_program* program_;
  std::string program_name_, service_name_, out_dir_base_;

 private:
  static size_t strlen_(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
  std::map<char, std::string> escape_;
  int indent_, tmp_;
};

typedef t_generator* (*generator_maker)(t_program*, const std::map<std::string, std::string>&, const std::string&);
extern generator_maker make_generator;

#define THRIFT_REGISTER_GENERATOR(language, long_name, doc)                                                                     \
  static t_generator* make_##language(t_program* p, const std::map<std::string, std::string>& o, const std::string& s) {       \
    return new t_##language##_generator(p, o, s);                                                                              \
  }                                                                                                                            \
  static bool register_##language() { make_generator = make_##language; return true; }                                         \
  static bool registered_##language = register_##language();                                                                   \
  bool used_##language() { return registered_##language; }

#endif
