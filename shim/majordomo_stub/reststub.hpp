// Force-included in front of Broker.hpp: takes the place of majordomo/RestServer.hpp, whose HTTP/2 and
// HTTP/3 libraries are not installed. What the broker hands to the REST server is recorded, what a
// REST client would send is injected.
#ifndef VP_SHIM_RESTSTUB_HPP
#define VP_SHIM_RESTSTUB_HPP
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP
#include <deque>
#include <expected>
#include <filesystem>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <MdpMessage.hpp>
#include <Topic.hpp>
#include <majordomo/Rest.hpp>
#include <zmq.h>
namespace opencmw::rest::detail { inline void setupIgnoreSigpipe() {} }
namespace vprest {
using Msg = opencmw::mdp::BasicMessage<opencmw::mdp::MessageFormat::WithSourceId>;
struct Port {
    std::deque<std::vector<Msg>>                              inject;        // batches a poll of the server hands over
    std::vector<Msg>                                          responses;
    std::vector<std::pair<opencmw::mdp::Topic, Msg>>          notifications;
};
inline Port &port() { static Port p; return p; }
inline bool  fdReady(int) { return !port().inject.empty(); }
inline const bool installed = (vpzmq::fdReady = fdReady, true);
}
namespace opencmw::majordomo::detail::rest {
struct RestServer {
    static std::expected<RestServer, std::string> sslWithPaths(std::filesystem::path, std::filesystem::path) { return RestServer{}; }
    static std::expected<RestServer, std::string> sslWithBuffers(std::string, std::string) { return RestServer{}; }
    static std::expected<RestServer, std::string> unencrypted() { return RestServer{}; }
    void setHandlers(std::vector<majordomo::rest::Handler>) {}
    std::expected<void, std::string> bind(const majordomo::rest::Settings &) { return {}; }
    std::vector<vprest::Msg> processReadWrite(int, bool, bool) {
        if (vprest::port().inject.empty()) return {};
        auto b = std::move(vprest::port().inject.front());
        vprest::port().inject.pop_front();
        return b;
    }
    void populatePollerItems(std::vector<zmq_pollitem_t> &items) {
        zmq_pollitem_t i{};
        i.fd     = 4242;
        i.events = ZMQ_POLLIN;
        items.push_back(i);
    }
    void handleResponse(vprest::Msg &&m) { vprest::port().responses.push_back(std::move(m)); }
    void handleNotification(const mdp::Topic &t, vprest::Msg &&m) { vprest::port().notifications.emplace_back(t, std::move(m)); }
};
}
#endif
