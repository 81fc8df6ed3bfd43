// Replaces nothing of the HTTP server but its TCP socket: the real
// server_http.hpp is included and instantiated over MemSocket, an in-memory
// stream, so the bytes of a request go through the real parser, dispatch,
// handlers and response writer, and the bytes of the answer come out.
#ifndef VF_SERVER_HTTP
#define VF_SERVER_HTTP
#include_next "server_http.hpp"
#include_next "client_http.hpp"
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <boost/asio.hpp>

namespace vfhttp {
namespace asio = boost::asio;
struct Wire { std::string in; std::vector<size_t> cuts; size_t pos = 0; std::string out; bool closed = false; };
extern thread_local Wire* g_wire; // the wire the next socket is attached to

class MemSocket {
  asio::io_context& ioc; Wire* w;
public:
  typedef asio::io_context::executor_type executor_type;
  typedef MemSocket lowest_layer_type;
  explicit MemSocket(asio::io_context& c) : ioc(c), w(g_wire) {}
  executor_type get_executor() noexcept { return ioc.get_executor(); }
  MemSocket& lowest_layer() noexcept { return *this; }
  const MemSocket& lowest_layer() const noexcept { return *this; }
  template <class T> void shutdown(T, boost::system::error_code& ec) { ec = {}; w->closed = true; }
  void cancel(boost::system::error_code& ec) { ec = {}; }
  void close(boost::system::error_code& ec) { ec = {}; w->closed = true; }
  asio::ip::tcp::endpoint remote_endpoint() const { return {}; }
  asio::ip::tcp::endpoint local_endpoint() const { return {}; }
  template <class O> void set_option(const O&, boost::system::error_code&) {}
  template <class B, class H> void async_read_some(const B& b, H&& h) {
    size_t end = w->in.size(); for (size_t c : w->cuts) if (c > w->pos && c < end) { end = c; break; }
    size_t n = asio::buffer_copy(b, asio::buffer(w->in.data() + w->pos, end - w->pos)); w->pos += n;
    boost::system::error_code ec; if (n == 0 && asio::buffer_size(b) > 0) ec = asio::error::eof;
    asio::post(ioc, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
  template <class B, class H> void async_write_some(const B& b, H&& h) {
    size_t n = asio::buffer_size(b), o = w->out.size(); w->out.resize(o + n); asio::buffer_copy(asio::buffer(&w->out[o], n), b);
    boost::system::error_code ec; asio::post(ioc, [h = std::move(h), ec, n]() mutable { h(ec, n); });
  }
};
struct ServerIface { virtual ~ServerIface() {} virtual void exchange(Wire& w) = 0; };
std::string routerReply(const std::string& target);
void serverStarted(ServerIface* s); // returns when the server is asked to stop
} // namespace vfhttp

namespace SimpleWeb {
template <> class Server<vfhttp::MemSocket> : public ServerBase<vfhttp::MemSocket>, public vfhttp::ServerIface {
public:
  Server() noexcept : ServerBase<vfhttp::MemSocket>::ServerBase(80) {}
  void start(const std::function<void(unsigned short)>& = nullptr) { vfhttp::serverStarted(this); }
  void exchange(vfhttp::Wire& w) override {
    boost::asio::io_context ioc; vfhttp::g_wire = &w;
    { auto connection = create_connection(ioc); auto session = std::make_shared<Session>(config.max_request_streambuf_size, connection); this->read(session); }
    ioc.poll();
  }
protected:
  void accept() override {}
};
#ifdef VF_MEMROUTER
// The client of the walking router without its socket and its thread: the reply of g_router, at once
template <> class Client<vfhttp::MemSocket> {
public:
  struct Content : public std::istringstream { using std::istringstream::istringstream; std::size_t size() noexcept { return str().size(); } std::string string() { return str(); } bool end = true; };
  struct Response { std::string http_version = "1.1", status_code = "200 OK"; CaseInsensitiveMultimap header; Content content; explicit Response(const std::string& s) : content(s) {} void close() noexcept {} };
  struct Config { long timeout = 0, timeout_connect = 0; std::size_t max_response_streambuf_size = 1 << 30; std::string proxy_server; } config;
  std::shared_ptr<io_context> io_service;
  explicit Client(const std::string&) noexcept {}
  std::shared_ptr<Response> request(const std::string&, const std::string& path = {"/"}, string_view = {}, const CaseInsensitiveMultimap& = CaseInsensitiveMultimap()) { return std::make_shared<Response>(vfhttp::routerReply(path)); }
  void stop() noexcept {}
};
#else
template <> class Client<vfhttp::MemSocket> : public Client<asio::ip::tcp::socket> { public: using Client<asio::ip::tcp::socket>::Client; }; // clients keep their TCP socket
#endif
} // namespace SimpleWeb
#define HTTP_SOCKET_OF_THE_REPOSITORY HTTP
#define HTTP vfhttp_socket
namespace SimpleWeb { using vfhttp_socket = vfhttp::MemSocket; }
#endif
