// Entry points of the assertion and utility libraries, used as analysis roots.
#include <string>
#include <type_traits>
#include <variant>

#include "resim/utils/uuid.hh"

namespace probe {
using namespace resim;

// ---- identifiers
using Raw = std::array<unsigned char, UUID::ARRAY_SIZE>;
UUID u_default() { return UUID(); }
UUID u_raw(Raw id) { return UUID(id); }
UUID u_parse(const std::string &s) { return UUID(s); }
UUID u_new() { return UUID::new_uuid(); }
std::string u_text(const UUID &u) { return u.to_string(); }
bool u_eq(const UUID &a, const UUID &b) { return a == b; }
bool u_ne(const UUID &a, const UUID &b) { return a != b; }
bool u_null(const UUID &a) { return a.is_null(); }
Raw u_id(const UUID &a) { return a.id(); }
std::size_t u_hash(const UUID &a) { return std::hash<UUID>()(a); }
UUID u_trip(const UUID &a) { return UUID(a.to_string()); }
}  // namespace probe
