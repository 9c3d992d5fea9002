// Lets the analysis parse the sources that use cpr, which is not installed
// here.  Nothing is linked or run.
#pragma once
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>
namespace cpr {
struct Header {
  Header() = default;
  Header(std::initializer_list<std::pair<std::string, std::string>> f)
      : fields(f) {}
  std::vector<std::pair<std::string, std::string>> fields;
};
struct Url {
  Url() = default;
  Url(std::string u) : text(std::move(u)) {}
  Url(const char *u) : text(u) {}
  const std::string &str() const { return text; }
  std::string text;
};
struct Body {
  Body() = default;
  Body(std::string b) : text(std::move(b)) {}
  Body(const char *b) : text(b) {}
  std::string text;
};
struct Bearer {
  Bearer(std::string t) : text(std::move(t)) {}
  std::string text;
};
struct Error {
  explicit operator bool() const;
  std::string message;
};
struct Response {
  long status_code{};
  std::string text;
  Header header;
  Url url;
  double elapsed{};
  Error error;
  std::string reason;
};
// What the server is asked; the parts may come in any order.
struct Request {
  std::string method;
  std::string url;
  std::string bearer;
  std::string body;
  std::vector<std::pair<std::string, std::string>> header;
  void set(const Url &x) { url = x.text; }
  void set(const Bearer &x) { bearer = x.text; }
  void set(const Body &x) { body = x.text; }
  void set(const Header &x) { header = x.fields; }
};
Response transport(const Request &r);
template <typename... Ts>
Response Post(Ts &&...ts) {
  Request r;
  r.method = "POST";
  (r.set(ts), ...);
  return transport(r);
}
template <typename... Ts>
Response Get(Ts &&...ts) {
  Request r;
  r.method = "GET";
  (r.set(ts), ...);
  return transport(r);
}
template <typename... Ts>
Response Put(Ts &&...ts) {
  Request r;
  r.method = "PUT";
  (r.set(ts), ...);
  return transport(r);
}
}  // namespace cpr
