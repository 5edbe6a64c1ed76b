// Reference models: XML document reader, positional comparison with the
// documented tolerance, base64, difference script, all independent of the
// code under test.
#pragma once
#include "json.h"
#include "rng.h"
#include <string>
#include <vector>
namespace model {
struct Entry {
  std::string elem, name, type, enc = "none", comp = "none", content;
  bool has_type = false, has_name = false, odd = false; // odd: nested markup or unknown attributes
};
struct Doc {
  bool ok = false, odd = false; // odd: not the plain structure (unknown elements, other root...)
  std::string root, err;
  std::vector<Entry> es;
};
Doc parse_doc(const std::string& bytes);
Doc parse_fragment(const std::string& bytes); // sequence of elements, other text between them ignored
bool b64_decode(const std::string& s, std::string& out);
std::string b64_encode(const std::string& s, int line);

struct Meas {
  std::string kind;            // int float double bool string plain ftext fpng fjpeg
  std::string name, text;      // text: content as recorded (for files: file name)
  bool tol = false;            // compared with tolerance
  std::string elem() const { return kind[0] == 'f' && kind != "float" ? "DartMeasurementFile" : "DartMeasurement"; }
  std::string type() const;
  bool is_file() const { return elem() == "DartMeasurementFile"; }
  bool numeric() const { return kind == "int" || kind == "float" || kind == "double" || kind == "bool"; }
};
enum Tri { No = 0, Yes = 1, Maybe = 2 };
// content comparison of a non-file measurement
Tri content_match(const Entry& b, const Meas& m, double tol);
Tri matches(const Entry& b, const Meas& m, double tol);
std::string fmt_float(float f);
std::string fmt_double(double d);
// value of a numeric text: 0 not a number, 1 finite, 2 out of range or near it (do not judge)
int num_value(const std::string& kind, const std::string& s, long double& v);
bool apply_diff(const std::string& from, const std::string& script, std::string& to, std::string& err);
std::string esc_text(const std::string& s);
std::string esc_attr(const std::string& s);
std::string printable(const std::string& s, size_t n = 60);
} // namespace model
