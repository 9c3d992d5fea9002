// Entry points of the clients of the ReSim servers, used as analysis roots.
#include <cpr/cpr.h>

#include <filesystem>
#include <memory>
#include <string>

#include "resim/auth/auth_client_interface.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/utils/status.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_update.hh"

namespace probe {
using namespace resim;
using visualization::ViewClient;

void vc_auth(ViewClient &c, std::unique_ptr<auth::AuthClientInterface> &&a) {
  c.set_auth_client(std::move(a));
}
// a new client, of which the given updates are asked in turn
Status vc_one(
    const std::string &url,
    std::unique_ptr<auth::AuthClientInterface> &&a,
    const visualization::ViewUpdate &u) {
  ViewClient c{url};
  c.set_auth_client(std::move(a));
  return c.send_view_update(u);
}
Status vc_two(
    const std::string &url,
    std::unique_ptr<auth::AuthClientInterface> &&a,
    const visualization::ViewUpdate &u,
    const visualization::ViewUpdate &v) {
  ViewClient c{url};
  c.set_auth_client(std::move(a));
  c.send_view_update(u);
  return c.send_view_update(v);
}
Status vc_three(
    const std::string &url,
    std::unique_ptr<auth::AuthClientInterface> &&a,
    const visualization::ViewUpdate &u,
    const visualization::ViewUpdate &v,
    const visualization::ViewUpdate &w) {
  ViewClient c{url};
  c.set_auth_client(std::move(a));
  c.send_view_update(u);
  c.send_view_update(v);
  return c.send_view_update(w);
}
std::string vc_body(const visualization::ViewUpdate &u) {
  visualization::proto::ViewUpdate m;
  visualization::proto::pack(u, &m);
  return m.SerializeAsString();
}

Status vc_five(
    const std::string &url,
    std::unique_ptr<auth::AuthClientInterface> &&a,
    const visualization::ViewUpdate &u,
    const visualization::ViewUpdate &v,
    const visualization::ViewUpdate &w,
    const visualization::ViewUpdate &x,
    const visualization::ViewUpdate &y) {
  ViewClient c{url};
  c.set_auth_client(std::move(a));
  c.send_view_update(u);
  c.send_view_update(v);
  c.send_view_update(w);
  c.send_view_update(x);
  return c.send_view_update(y);
}

using auth::DeviceCodeClient;
std::string dc_get(const DeviceCodeClient::Config &k) {
  DeviceCodeClient c{k};
  return c.get_jwt();
}
std::string dc_twice(const DeviceCodeClient::Config &k) {
  DeviceCodeClient c{k};
  c.get_jwt();
  return c.get_jwt();
}
std::string dc_renewed(const DeviceCodeClient::Config &k) {
  DeviceCodeClient c{k};
  c.get_jwt();
  c.refresh();
  return c.get_jwt();
}
std::string dc_restarted(const DeviceCodeClient::Config &k) {
  {
    DeviceCodeClient c{k};
    c.get_jwt();
  }
  DeviceCodeClient d{k};
  return d.get_jwt();
}
void dc_refresh(const DeviceCodeClient::Config &k) {
  DeviceCodeClient c{k};
  c.refresh();
}
}  // namespace probe
