#pragma once
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include "yacl/base/buffer.h"
namespace yacl::link {
struct Statistics { std::atomic<size_t> sent_actions{0}, sent_bytes{0}, recv_actions{0}, recv_bytes{0}; };
struct SSLOptions {};
struct ContextDesc {
  struct Party { std::string id, host; Party() = default; Party(std::string i, std::string h) : id(i), host(h) {} };
  std::string id = "root"; std::vector<Party> parties; uint32_t connect_retry_times = 10, connect_retry_interval_ms = 1000; uint64_t recv_timeout_ms = 30000;
  uint32_t http_max_payload_size = 1024, http_timeout_ms = 1000; bool throttle_window_size = false, enable_ssl = false; std::string brpc_channel_protocol, brpc_channel_connection_type;
};
// In-memory world shared by all parties of one link (and of its spawned sub links).
struct MiniWorld {
  std::mutex mu; std::condition_variable cv;
  std::map<std::tuple<std::string, size_t, size_t, std::string>, std::deque<Buffer>> q;
  // every message ever sent: (link id, src, dst, tag, bytes)
  struct Msg { std::string id; size_t src, dst; std::string tag, data; };
  std::vector<Msg> log; bool keep_log = false;
  uint64_t timeout_ms = 20000;
};
class Context {
 public:
  Context(std::shared_ptr<MiniWorld> w, std::string id, size_t rank, size_t size, ContextDesc d = {}) : w_(std::move(w)), id_(std::move(id)), rank_(rank), size_(size), desc_(std::move(d)), st_(std::make_shared<Statistics>()) {}
  size_t Rank() const { return rank_; }
  size_t WorldSize() const { return size_; }
  std::string Id() const { return id_; }
  size_t NextRank(size_t k = 1) const { return (rank_ + k) % size_; }
  size_t PrevRank(size_t k = 1) const { return (rank_ + size_ - k % size_) % size_; }
  void ConnectToMesh() {}
  void WaitLinkTaskFinish() {}
  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t) {}
  uint64_t GetRecvTimeout() const { return 0; }
  void PrintStats() const {}
  std::shared_ptr<const Statistics> GetStats() const { return st_; }
  const ContextDesc& desc() const { return desc_; }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { Post(dst, Buffer(v), tag); }
  void SendAsync(size_t dst, const std::string& v, std::string_view tag) { Post(dst, Buffer(v.data(), v.size()), tag); }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { Post(dst, Buffer(v), tag); }
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) { Post(dst, std::move(v), tag); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { Post(dst, Buffer(v), tag); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { Post(dst, std::move(v), tag); }
  Buffer Recv(size_t src, std::string_view tag) {
    std::unique_lock<std::mutex> lk(w_->mu);
    auto& q = w_->q[{id_, src, rank_, std::string(tag)}];
    if (!w_->cv.wait_for(lk, std::chrono::milliseconds(w_->timeout_ms), [&] { return !q.empty(); })) { YACL_THROW_IO_ERROR("recv timeout rank={} src={} tag={}", rank_, src, std::string(tag)); }
    Buffer b = std::move(q.front()); q.pop_front(); st_->recv_actions++; st_->recv_bytes += b.size(); return b;
  }
  std::unique_ptr<Context> Spawn(const std::string& = "") { return std::make_unique<Context>(w_, id_ + "-" + std::to_string(child_++), rank_, size_, desc_); }
  std::unique_ptr<Context> SubWorld(const std::string& sfx, const std::vector<std::string>& ids) { return std::make_unique<Context>(w_, id_ + "-" + sfx, rank_, ids.size(), desc_); }
  std::shared_ptr<MiniWorld> world() const { return w_; }
 private:
  void Post(size_t dst, Buffer b, std::string_view tag) {
    std::lock_guard<std::mutex> lk(w_->mu); st_->sent_actions++; st_->sent_bytes += b.size();
    if (w_->keep_log) { w_->log.push_back({id_, rank_, dst, std::string(tag), std::string(b.data<char>() ? b.data<char>() : "", b.size())}); }
    w_->q[{id_, rank_, dst, std::string(tag)}].push_back(std::move(b)); w_->cv.notify_all();
  }
  std::shared_ptr<MiniWorld> w_; std::string id_; size_t rank_, size_; ContextDesc desc_; std::shared_ptr<Statistics> st_; std::atomic<int> child_{0};
};
}  // namespace yacl::link
