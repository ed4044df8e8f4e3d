// C30: parsing depends on the bytes that a stream delivers, on nothing else of the stream
#include "plural.hpp"
#include "iconv_model.hpp"
#include <algorithm>
#include <streambuf>
#define COUNT(a) (unsigned)(sizeof a / sizeof *a)
static std::vector<std::string>* seen;
static void on_info(const std::string& s) { seen->push_back("i" + s); }
static void on_warning(const std::string& s) { seen->push_back("w" + s); }
static void on_error(const std::string& s) { seen->push_back("e" + s); }
static void warm() { quiet(); PluralForms::from_string("x"); IM.keyed = true; seen = new std::vector<std::string>; if (sv_bool("log")) { Log::set_log_info_callback(on_info); Log::set_log_warning_callback(on_warning); Log::set_log_error_callback(on_error); } }
static void done() { quiet(); delete seen; seen = nullptr; }
// hands out its bytes in pieces, cannot seek, cannot be put back into
struct Feed : std::streambuf {
  std::string data, area; size_t at = 0, piece, fail; bool raise;
  Feed(const std::string& d, size_t p, size_t f = (size_t)-1, bool r = false) : data(d), piece(p), fail(f), raise(r) {}
  int_type underflow() override {
    if (at >= fail) { if (raise) throw std::runtime_error("device"); return traits_type::eof(); } if (at >= data.size()) return traits_type::eof();
    size_t n = std::min(std::min(piece, data.size() - at), fail - at); area.assign(data, at, n); at += n; setg(&area[0], &area[0], &area[0] + n); return traits_type::to_int_type(area[0]);
  }
};
struct Unbuffered : std::streambuf { // without a get area
  std::string data; size_t at = 0; Unbuffered(const std::string& d) : data(d) {}
  int_type underflow() override { return at < data.size() ? traits_type::to_int_type(data[at]) : traits_type::eof(); }
  int_type uflow() override { return at < data.size() ? traits_type::to_int_type(data[at++]) : traits_type::eof(); }
};
static std::string dump(Dictionary& d) { // not the order of enumeration: it may depend on addresses
  std::vector<std::string> v; d.foreach([&](const std::string& k, const std::vector<std::string>& f) { std::string o = "<" + k + ">"; for (auto& x : f) o += "[" + x + "]"; v.push_back(o); }); d.foreach_ctxt([&](const std::string& c, const std::string& k, const std::vector<std::string>& f) { std::string o = "{" + c + "}<" + k + ">"; for (auto& x : f) o += "[" + x + "]"; v.push_back(o); });
  std::string o = d.get_plural_forms() ? std::to_string(d.get_plural_forms().get_nplural()) : "-"; for (auto& x : v) o += "\n" + x; return o;
}
static std::string read(std::istream& in, Dictionary& d, const std::string& name = "t.po") { std::string r; try { POParser::parse(name, in, d); } catch (std::exception&) { r = "threw "; } r += dump(d); for (auto& m : *seen) r += "\n" + m; seen->clear(); return r; }
static const unsigned KINDS = 9;
// reads data through a stream of that kind and checks that the stream is as it was, but at its end
static std::string through(unsigned kind, const std::string& data, Dictionary& d) {
  std::unique_ptr<std::streambuf> buf; std::unique_ptr<std::istream> in; std::ostringstream tied; const std::string before = "msgid \"before\"\nmsgstr \"no\"\n\n";
  switch (kind) {
    case 0: buf.reset(new Feed(data, 1)); break;
    case 1: buf.reset(new Feed(data, 3)); break;
    case 2: buf.reset(new Feed(data, data.size() + 1)); break;
    case 3: buf.reset(new Unbuffered(data)); break;
    case 4: { in.reset(new std::istringstream(before + data)); std::string line; for (int i = 0; i < 3; ++i) std::getline(*in, line); break; } // read from here on, not from the start
    case 5: in.reset(new std::istringstream(data)); in->unsetf(std::ios::skipws); in->setf(std::ios::hex, std::ios::basefield); in->fill('q'); break;
    case 6: { std::stringstream* s = new std::stringstream; in.reset(s); *s << before << data; s->seekg((std::streamoff)before.size()); break; }
    case 7: in.reset(new std::istringstream(data)); in->exceptions(std::ios::badbit); break;
    default: in.reset(new std::istringstream(data)); in->tie(&tied); break;
  }
  if (!in) in.reset(new std::istream(buf.get()));
  std::ios::fmtflags f = in->flags(); std::ios::iostate e = in->exceptions(); std::streambuf* b = in->rdbuf(); std::ostream* t = in->tie(); char fill = in->fill(); std::string r = read(*in, d);
  sv_check(in->flags() == f && in->exceptions() == e && in->rdbuf() == b && in->tie() == t && in->fill() == fill, "the settings of the stream stay as they were"); if (r.compare(0, 6, "threw ") != 0) sv_check(in->rdbuf()->sgetc() == std::char_traits<char>::eof(), "the stream is read to its end");
  return r;
}
static std::string usual(const std::string& data, Dictionary& d) { std::istringstream in(data); return read(in, d); }
static const char* const heads[] = { "", "msgid \"a\"\nmsgstr \"", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr", "#, fuzzy\nmsgid \"a\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=KOI8-R\\n\"\n\nmsgid \"a\"\nmsgstr \"", "msgid \"a\"\nmsgstr \"b\"\n", "\xef\xbb\xbf", "msgid \"a\"\r\nmsgstr \"b\"\r" };
static const char* const tails[] = { "", "\n", "\"\n\nmsgid \"t\"\nmsgstr \"T\"\n", "\"\r\n\r\nmsgid \"t\"\r\nmsgstr \"T\"" };
SV_ENTRY c30_any() {
  warm(); unsigned h = sv_range(0, COUNT(heads) - 1, "head"); std::string b = sv_str_upto(0, (size_t)sv_param("N", 2), "bytes"); unsigned t = sv_range(0, COUNT(tails) - 1, "tail"), kind = sv_range(0, KINDS - 1, "stream"); std::string data = heads[h] + b + tails[t]; Dictionary x, y;
  std::string r = usual(data, x), s = through(kind, data, y); sv_check(sv_eq(r, s), "the same bytes define the same, however the stream delivers them"); sv_reach(s.size() > 1 ? "something" : "nothing"); done();
}
static const char* const text = "\xef\xbb\xbf# c\nmsgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=KOI8-R\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n\nmsgctxt \"c\"\nmsgid \"i\"\nmsgid_plural \"is\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\"\n\"C\"\n\njunk\n\nmsgid \"z\"\nmsgstr \"Z\"";
// a complete file with an arbitrary byte anywhere, cut anywhere
SV_ENTRY c30_window() {
  warm(); std::string data = text; size_t p = sv_range(0, (uint32_t)data.size(), "position"); bool cut = sv_bool("cut"); if (cut) data.resize(p); else if (p < data.size()) data[p] = sv_str(1, "byte")[0]; else data += sv_str(1, "byte"); unsigned kind = sv_range(0, KINDS - 1, "stream"); Dictionary x, y; std::string r = usual(data, x), s = through(kind, data, y); sv_check(sv_eq(r, s), "the same bytes define the same, however the stream delivers them"); sv_reach(cut ? "cut" : "changed"); done();
}
// lines and pieces of telling sizes
SV_ENTRY c30_sizes() {
  warm(); size_t L = (size_t)sv_param("L", 5000), n = telling(L, "length"); std::string v = plain_byte("byte"), big(n, 'k'); big[n - 1] = v[0]; std::string data = "msgid \"" + big + "\"\nmsgstr \"x" + big + "\"\n\nmsgid \"q q\"\nmsgstr \"T\"\n"; Feed f(data, telling(n + 40, "piece")); std::istream in(&f); Dictionary d; POParser::parse("t.po", in, d);
  sv_check(sv_eq(d.translate(big), "x" + big) && d.translate("q q") == "T", "lines of any length arrive in pieces of any size"); sv_reach("read"); done();
}
// what came before the stream failed counts
SV_ENTRY c30_fail() {
  warm(); std::string parts[4], data; std::string v = plain_byte("byte"); parts[0] = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n"; parts[1] = "msgid \"a\"\nmsgstr \"A" + v + "\"\n\"more\"\n\n"; parts[2] = "msgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"B\"\nmsgstr[1] \"BB" + v + "\"\n\n"; parts[3] = "#, fuzzy\nmsgid \"d\"\nmsgstr \"D\"\n\n"; for (auto& p : parts) data += p;
  size_t at = sv_range(0, (uint32_t)data.size(), "position"); static const unsigned pieces[] = { 1, 5, 1000 }; unsigned piece = pieces[sv_range(0, 2, "piece")]; bool raise = sv_bool("exception"); Feed f(data, piece, at, raise); std::istream in(&f); bool masked = raise && sv_bool("mask"); if (masked) in.exceptions(std::ios::badbit); Dictionary d; try { POParser::parse("t.po", in, d); } catch (std::exception&) { sv_check(masked, "an exception leaves only if the stream asks for it"); }
  size_t end = 0; for (unsigned i = 0; i < 4; ++i) { end += parts[i].size(); if (at < end - (masked ? 0 : 1)) break; bool ok = i == 0 ? (bool)d.get_plural_forms() : i == 1 ? sv_eq(d.translate("a"), "A" + v + "more") : i == 2 ? sv_eq(d.translate_ctxt_plural("c", "b", "bs", 2), "BB" + v) : d.translate("d") == "D"; sv_check(ok, "entries that were read before the stream failed are there"); sv_reach("kept"); } sv_check(IM.live == 0 && IM.bad_use == 0, "every converter is closed"); done();
}
// the name of the file is for messages only
SV_ENTRY c30_name() {
  warm(); Log::set_log_error_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_info_callback(nullptr); static const char* const names[] = { "", "de.mo", "fr.po", "%s%n", "/nowhere/x.po", "de.po.gz", "-" }; unsigned k = sv_range(0, COUNT(names), "name"); std::string name = k < COUNT(names) ? std::string(names[k]) : sv_str_upto(1, (size_t)sv_param("N", 3), "bytes"); std::string data = text; size_t p = sv_range(0, (uint32_t)(data.size() - 1) / 4, "position"); data[p * 4] = plain_byte("byte")[0]; Dictionary x, y; std::istringstream a(data), b(data); std::string r = read(a, x), s = read(b, y, name); sv_check(sv_eq(r, s), "the same bytes define the same, whatever the file is called"); sv_reach("named"); done();
}
