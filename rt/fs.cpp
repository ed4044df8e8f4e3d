// Model of the POSIX/libstdc++ file system interface over a small file tree that the harness builds (sv_fs_*).
// In the native build the same tree is made of real files in a scratch directory and the real library reads it.
#define _GLIBCXX_USE_CXX11_ABI 1
#include <string>
#include <vector>
#include <filesystem>
#include <istream>
#include <ostream>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <fstream>
#include <system_error>
#undef __USE_EXTERN_INLINES
#define readdir64 rd64
#include <dirent.h>
#undef readdir64
#include <errno.h>
#include <sys/stat.h>
#include "sv.h"

namespace { struct Node { std::string path; int kind; std::string data; };  // kind 0 file, 1 directory, 2 link to a file, 3 link to a directory
std::vector<Node>* tree; const char ROOT[] = "/tmp/tgfs000000"; bool backwards;
std::vector<Node>& T() { if (!tree) tree = new std::vector<Node>; return *tree; }
std::string norm(const std::string& p) {          // absolute, single slashes, no "." components, no trailing slash
  std::string in = (p.size() && p[0] == '/') ? p : std::string(ROOT) + "/" + p, out; size_t i = 0;
  while (i < in.size()) { while (i < in.size() && in[i] == '/') ++i; size_t b = i; while (i < in.size() && in[i] != '/') ++i; if (i == b) break; if (i - b == 1 && in[b] == '.') continue; out += '/'; out.append(in, b, i - b); }
  return out; }
Node* lookup(const std::string& p) { if (p.empty()) return nullptr; std::string n = norm(p); for (Node& x : T()) if (sv_eq(x.path, n)) return &x; return nullptr; }
bool slash(const std::string& p) { return p.size() && p.back() == '/'; }
std::vector<std::string> names(const std::string& dir) { std::string d = norm(dir) + "/"; std::vector<std::string> r;
  for (Node& x : T()) if (x.path.size() > d.size() && x.path.compare(0, d.size(), d) == 0 && x.path.find('/', d.size()) == std::string::npos) r.push_back(x.path.substr(d.size()));
  if (backwards) for (size_t i = 0; i < r.size() / 2; ++i) std::swap(r[i], r[r.size() - 1 - i]);
  return r; }
bool isdir(const Node* n) { return n && (n->kind == 1 || n->kind == 3); }
}
extern "C" {
void sv_fs_open(int order) { T().clear(); backwards = order; T().push_back(Node{ROOT, 1, ""}); }
void sv_fs_root(char* out) { for (size_t i = 0; i < sizeof ROOT; ++i) out[i] = ROOT[i]; }
void sv_fs_add(const char* p, size_t pn, int kind, const char* d, size_t dn) { if (Node* x = lookup(std::string(ROOT) + "/" + std::string(p, pn))) { x->data.assign(d, dn); return; } T().push_back(Node{std::string(ROOT) + "/" + std::string(p, pn), kind, std::string(d, dn)}); }
void sv_fs_done() { delete tree; tree = nullptr; }

static int the_errno; int* __errno_location() { return &the_errno; }
struct __dirstream { std::vector<std::string> n; size_t i; dirent e; std::string path; };
DIR* opendir(const char* p) { Node* n = lookup(p); if (!n) { errno = ENOENT; return nullptr; } if (!isdir(n)) { errno = ENOTDIR; return nullptr; } DIR* d = new __dirstream; d->path = p; d->n = names(p); d->n.insert(d->n.begin(), ".."); d->n.insert(d->n.begin(), "."); d->i = 0; return d; }
dirent* readdir(DIR* d) { if (d->i >= d->n.size()) return nullptr; const std::string& s = d->n[d->i++]; for (size_t k = 0; k <= s.size() && k < sizeof d->e.d_name; ++k) d->e.d_name[k] = s.c_str()[k];
  d->e.d_type = DT_DIR; if (d->i > 2) { Node* n = lookup(d->path + "/" + s); d->e.d_type = !n ? DT_UNKNOWN : n->kind == 0 ? DT_REG : n->kind == 1 ? DT_DIR : DT_LNK; } d->e.d_ino = d->i; return &d->e; }

dirent64* rd64x(DIR* d) __asm__("readdir64"); dirent64* rd64x(DIR* d) { return (dirent64*)readdir(d); }
int closedir(DIR* d) { delete d; return 0; }
static int fill(const char* p, struct stat* st, bool follow) { Node* n = lookup(p); if (!n) { errno = ENOENT; return -1; } for (size_t i = 0; i < sizeof *st; ++i) ((char*)st)[i] = 0; st->st_mode = (!follow && n->kind > 1 ? S_IFLNK : isdir(n) ? S_IFDIR : S_IFREG) | 0755; st->st_size = n->data.size(); return 0; }
int stat(const char* p, struct stat* st) noexcept { return fill(p, st, true); }
int lstat(const char* p, struct stat* st) noexcept { return fill(p, st, false); }
int access(const char* p, int) noexcept { if (lookup(p)) return 0; errno = ENOENT; return -1; }
}

namespace std {
inline namespace _V2 {
struct sys_cat : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "error"; } };
error_category::~error_category() {} error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; } bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
static sys_cat* cat; const error_category& system_category() noexcept { if (!cat) { static char b[sizeof(sys_cat)]; cat = new (b) sys_cat; } return *cat; }
const error_category& generic_category() noexcept { return system_category(); }
}
error_condition error_code::default_error_condition() const noexcept { return error_condition(value(), category()); }
system_error::~system_error() noexcept {}
namespace filesystem { inline namespace __cxx11 {
// ---- path
struct path::_List::_Impl { vector<_Cmpt> v; };
static path::_List::_Impl* ptr(const unique_ptr<path::_List::_Impl, path::_List::_Impl_deleter>& p) { return (path::_List::_Impl*)((uintptr_t)p.get() & ~(uintptr_t)3); }
path::_List::_List() : _M_impl((_Impl*)(uintptr_t)_Type::_Filename) {}
path::_List::_List(const _List& o) : _M_impl((_Impl*)(uintptr_t)o.type()) { if (ptr(o._M_impl)) { _Impl* n = new _Impl; n->v = ptr(o._M_impl)->v; _M_impl.release(); _M_impl = unique_ptr<_Impl, _Impl_deleter>((_Impl*)((uintptr_t)n | (uintptr_t)o.type())); } }
path::_List& path::_List::operator=(const _List& o) { if (this != &o) { _List c(o); swap(c); } return *this; }
void path::_List::_Impl_deleter::operator()(_Impl* p) const noexcept { _Impl* q = (_Impl*)((uintptr_t)p & ~(uintptr_t)3); if (q) delete q; }
void path::_List::type(_Type t) noexcept { _Impl* p = ptr(_M_impl); _M_impl.release(); _M_impl = unique_ptr<_Impl, _Impl_deleter>((_Impl*)((uintptr_t)p | (uintptr_t)t)); }
int path::_List::size() const noexcept { return ptr(_M_impl) ? (int)ptr(_M_impl)->v.size() : 0; }
bool path::_List::empty() const noexcept { return size() == 0; }
void path::_List::clear() { if (ptr(_M_impl)) ptr(_M_impl)->v.clear(); }
path::_List::iterator path::_List::begin() noexcept { return ptr(_M_impl)->v.data(); }
path::_List::iterator path::_List::end() noexcept { return ptr(_M_impl)->v.data() + ptr(_M_impl)->v.size(); }
path::_List::const_iterator path::_List::begin() const noexcept { return ptr(_M_impl)->v.data(); }
path::_List::const_iterator path::_List::end() const noexcept { return ptr(_M_impl)->v.data() + ptr(_M_impl)->v.size(); }
path::_Cmpt::_Cmpt(string_view s, _Type t, size_t pos) : _M_pos(pos) { _M_pathname.assign(s.data(), s.size()); _M_cmpts.type(t); }
void path::_M_split_cmpts() {
  string_type& p = _M_pathname; _List fresh; fresh.swap(_M_cmpts);
  if (p.empty() || p.find('/') == string::npos) { _M_cmpts.type(_Type::_Filename); return; }
  if (p.find_first_not_of('/') == string::npos) { _M_cmpts.type(_Type::_Root_dir); return; }
  _List::_Impl* v = new _List::_Impl; size_t i = 0; if (p[0] == '/') v->v.push_back(_Cmpt(string_view(p.data(), 1), _Type::_Root_dir, 0));
  while (i < p.size()) { while (i < p.size() && p[i] == '/') ++i; size_t b = i; while (i < p.size() && p[i] != '/') ++i; if (i > b) v->v.push_back(_Cmpt(string_view(p.data() + b, i - b), _Type::_Filename, b)); }
  if (p.back() == '/') v->v.push_back(_Cmpt(string_view(), _Type::_Filename, p.size()));
  _M_cmpts._M_impl.release(); _M_cmpts._M_impl = unique_ptr<_List::_Impl, _List::_Impl_deleter>(v);     // type _Multi is 0
}
path& path::operator=(const path& o) { if (this != &o) { string_type s = o._M_pathname; _M_pathname = s; _M_split_cmpts(); } return *this; }
bool path::has_filename() const noexcept { return !filename().empty(); }
path path::parent_path() const { size_t k = _M_pathname.rfind('/'); if (k == string::npos) return {}; while (k > 1 && _M_pathname[k - 1] == '/') --k; return path(_M_pathname.substr(0, k ? k : 1)); }
path& path::operator/=(const path& o) { if (o._M_pathname.size() && o._M_pathname[0] == '/') return *this = o; string_type s = _M_pathname; if (s.size() && s.back() != '/') s += '/'; s += o._M_pathname; return *this = path(s); }
pair<const path::string_type*, size_t> path::_M_find_extension() const noexcept {
  const string_type* s = nullptr; if (_M_cmpts.type() == _Type::_Filename) s = &_M_pathname; else if (_M_cmpts.type() == _Type::_Multi && !_M_cmpts.empty()) { const _Cmpt& c = *(_M_cmpts.end() - 1); if (c._M_cmpts.type() == _Type::_Filename) s = &c._M_pathname; }
  if (s) { if (s->size() <= 2 && (*s)[0] == '.') { if (s->size() == 1 || (*s)[1] == '.') return { s, string_type::npos }; } size_t k = s->rfind('.'); return { s, k ? k : string_type::npos }; }
  return {};
}
int path::compare(const path& o) const noexcept { return _M_pathname.compare(o._M_pathname); }
// ---- directories
struct filesystem_error::_Impl { int x; };
filesystem_error::filesystem_error(const string& w, error_code e) : system_error(e, w) {}
filesystem_error::filesystem_error(const string& w, const path&, error_code e) : system_error(e, w) {}
filesystem_error::~filesystem_error() {}
const char* filesystem_error::what() const noexcept { return runtime_error::what(); }
struct _Dir { vector<string> n; size_t i; path base; directory_entry e; };
static file_type kindof(const Node* n, bool follow) { return !n ? file_type::not_found : (!follow && n->kind > 1) ? file_type::symlink : isdir(n) ? file_type::directory : file_type::regular; }
static void load(_Dir& d) { d.e._M_path = d.base / path(d.n[d.i]); d.e._M_type = kindof(lookup(d.e._M_path.native()), false); }
directory_iterator::directory_iterator(const path& p, directory_options, error_code* ec) {
  Node* n = lookup(p.native()); int err = !n ? ENOENT : !isdir(n) ? ENOTDIR : 0;
  if (err) { error_code c(err, system_category()); if (!ec) throw filesystem_error("directory iterator cannot open directory", p, c); *ec = c; return; }
  if (ec) ec->clear(); vector<string> l = names(p.native()); if (l.empty()) return;
  _M_dir = std::make_shared<_Dir>(); _M_dir->n = l; _M_dir->i = 0; _M_dir->base = p; load(*_M_dir);
}
const directory_entry& directory_iterator::operator*() const noexcept { return _M_dir->e; }
directory_iterator& directory_iterator::operator++() { if (++_M_dir->i >= _M_dir->n.size()) _M_dir.reset(); else load(*_M_dir); return *this; }
directory_iterator& directory_iterator::increment(error_code& ec) { ec.clear(); return ++*this; }
} // __cxx11
file_status status(const path& p, error_code& ec) noexcept { ec.clear(); Node* n = lookup(p.native()); if (n && slash(p.native()) && !isdir(n)) n = nullptr; if (!n) ec = error_code(ENOENT, system_category()); return file_status(kindof(n, true), perms::all); }
file_status status(const path& p) { error_code e; return status(p, e); }
file_status symlink_status(const path& p, error_code& ec) noexcept { ec.clear(); Node* n = lookup(p.native()); if (!n) ec = error_code(ENOENT, system_category()); return file_status(kindof(n, false), perms::all); }
file_status symlink_status(const path& p) { error_code e; return symlink_status(p, e); }
uintmax_t file_size(const path& p) { Node* n = lookup(p.native()); if (!n || isdir(n)) throw filesystem_error("file size", p, error_code(ENOENT, system_category())); return n->data.size(); }
uintmax_t file_size(const path& p, error_code& ec) noexcept { Node* n = lookup(p.native()); if (!n || isdir(n)) { ec = error_code(ENOENT, system_category()); return (uintmax_t)-1; } ec.clear(); return n->data.size(); }
} // filesystem

// ---- files: the whole content is in one buffer; opening a directory succeeds, reading it does not
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {}
bool __basic_file<char>::is_open() const throw() { return _M_cfile_created; }
typedef basic_filebuf<char> FB;
template<> FB::basic_filebuf() : basic_streambuf<char>(), _M_lock(), _M_file(&_M_lock), _M_mode(ios_base::openmode(0)), _M_state_beg(), _M_state_cur(), _M_state_last(), _M_buf(nullptr), _M_buf_size(0), _M_buf_allocated(false),
  _M_reading(false), _M_writing(false), _M_pback(), _M_pback_cur_save(nullptr), _M_pback_end_save(nullptr), _M_pback_init(false), _M_codecvt(nullptr), _M_ext_buf(nullptr), _M_ext_buf_size(0), _M_ext_next(nullptr), _M_ext_end(nullptr) {}
template<> FB* FB::close() { if (!_M_file._M_cfile_created) return nullptr; if (_M_buf) delete[] _M_buf; _M_buf = nullptr; _M_file._M_cfile_created = false; setg(nullptr, nullptr, nullptr); return this; }
template<> FB* FB::open(const char* name, ios_base::openmode m) {
  if (_M_file._M_cfile_created) return nullptr; Node* n = lookup(name); if (n && slash(name) && !isdir(n)) n = nullptr;
  if (m & ios_base::trunc) { if (n && !isdir(n)) n->data.clear(); else if (!n) return nullptr; }
  if (!n || ((m & ios_base::out) && isdir(n))) return nullptr;
  _M_mode = m; _M_reading = isdir(n); _M_buf_size = n->data.size(); _M_buf = new char[_M_buf_size + 1]; for (size_t i = 0; i < _M_buf_size; ++i) _M_buf[i] = n->data[i];
  _M_file._M_cfile_created = true; setg(_M_buf, _M_buf + ((m & ios_base::ate) ? _M_buf_size : 0), _M_buf + _M_buf_size); return this; }
template<> int FB::underflow() { if (!_M_file._M_cfile_created || !(_M_mode & ios_base::in)) return -1; if (_M_reading) __throw_ios_failure("basic_filebuf::underflow error reading the file"); return gptr() < egptr() ? (unsigned char)*gptr() : -1; }
template<> int FB::overflow(int) { return -1; }
template<> int FB::pbackfail(int c) { if (gptr() == eback()) return -1; gbump(-1); return c == -1 ? 0 : c; }
template<> streamsize FB::showmanyc() { return egptr() - gptr(); }
template<> streamsize FB::xsgetn(char* s, streamsize n) { streamsize k = 0; while (k < n && underflow() != -1) { s[k++] = *gptr(); gbump(1); } return k; }
template<> streamsize FB::xsputn(const char*, streamsize) { return 0; }
template<> basic_streambuf<char>* FB::setbuf(char*, streamsize) { return this; }
template<> FB::pos_type FB::seekoff(off_type o, ios_base::seekdir w, ios_base::openmode) { if (!_M_file._M_cfile_created) return pos_type(off_type(-1)); off_type b = w == ios_base::beg ? 0 : w == ios_base::cur ? gptr() - eback() : egptr() - eback(), t = b + o; if (t < 0) return pos_type(off_type(-1)); if (t > egptr() - eback()) t = egptr() - eback(); setg(eback(), eback() + t, egptr()); return pos_type(t); }
template<> FB::pos_type FB::seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p), ios_base::beg, m); }
template<> int FB::sync() { return 0; }
template<> void FB::imbue(const locale&) {}
template class basic_filebuf<char>;
template class basic_ifstream<char>;
}
