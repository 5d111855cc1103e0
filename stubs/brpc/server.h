#pragma once
#include <cstdarg>
#include <memory>
#include <string>
#include <vector>
#include <google/protobuf/service.h>
#include <google/protobuf/message.h>
#include "gflags/gflags.h"
namespace butil {
struct StringPiece { const char* data() const; size_t size() const; };
template <class T> struct intrusive_ptr { T* get() const; T* operator->() const; operator bool() const; void reset(); intrusive_ptr() = default; intrusive_ptr(T*); };
struct IOBuf { void append(const void*, size_t); void append(const std::string&); void append(const IOBuf&); void append_user_data(void*, size_t, void (*)(void*)); std::string to_string() const; size_t size() const; size_t length() const; size_t copy_to(void*, size_t = 0, size_t = 0) const; size_t cutn(void*, size_t); void clear(); bool empty() const; };
struct EndPoint {}; struct EPS { const char* c_str() const; }; EPS endpoint2str(const EndPoint&);
struct Status { Status() = default; Status(int, const std::string&); template <class... A> Status(int, const char*, A...); static Status OK(); bool ok() const; int error_code() const; std::string error_str() const; const char* error_cstr() const; };
struct FilePath { explicit FilePath(const std::string&); }; bool ReadFileToString(const FilePath&, std::string*);
}
namespace logging { struct LogSink { virtual bool OnLogMessage(int, const char*, int, const butil::StringPiece&) { return true; } }; inline int SetMinLogLevel(int) { return 0; } struct LoggingSettings { int logging_dest; std::string log_file; }; inline constexpr int LOG_TO_NONE = 0, LOG_TO_FILE = 1, BLOG_INFO = 0, BLOG_NOTICE = 1, BLOG_WARNING = 2, BLOG_ERROR = 3, BLOG_FATAL = 4; bool InitLogging(const LoggingSettings&); LogSink* SetLogSink(LogSink*); }
namespace brpc {
struct ProgressiveReader { virtual ~ProgressiveReader() = default; virtual butil::Status OnReadOnePart(const void*, size_t) = 0; virtual void OnEndOfMessage(const butil::Status&) = 0; };
struct ProgressiveAttachment { butil::EndPoint remote_side() const; int Write(const butil::IOBuf&); int Write(const void*, size_t); };
struct Controller : google::protobuf::RpcController { butil::EndPoint remote_side() const; butil::EndPoint local_side() const; butil::intrusive_ptr<ProgressiveAttachment> CreateProgressiveAttachment(); butil::IOBuf& response_attachment(); butil::IOBuf& request_attachment(); void ReadProgressiveAttachmentBy(ProgressiveReader*); void response_will_be_read_progressively(); void set_timeout_ms(int64_t); bool Failed() const override; std::string ErrorText() const override; void Reset() override; void StartCancel() override; void SetFailed(const std::string&) override; void SetFailed(int, const char*, ...); bool IsCanceled() const override; void NotifyOnCancel(google::protobuf::Closure*) override; int ErrorCode() const; bool is_response_read_progressively() const; std::string& http_response(); struct HttpHeader { void SetHeader(const std::string&, const std::string&); void set_method(int); std::string uri() const; }; HttpHeader& http_request(); };
struct ClosureGuard { explicit ClosureGuard(google::protobuf::Closure*); ~ClosureGuard(); google::protobuf::Closure* release(); };
struct CertInfo { std::string certificate, private_key; }; struct VerifyOptions { int verify_depth; std::string ca_file_path; };
struct ServerSSLOptions { CertInfo default_cert; VerifyOptions verify; std::vector<CertInfo> certs; std::string alpns, ciphers; };
struct ChannelSSLOptions { CertInfo client_cert; VerifyOptions verify; std::string ciphers, protocols, sni_name; };
struct ServerOptions { ServerSSLOptions* mutable_ssl_options(); bool has_builtin_services; int num_threads, idle_timeout_sec; std::string internal_port; };
struct ChannelOptions { std::string protocol, connection_type; int32_t timeout_ms, max_retry, connect_timeout_ms; ChannelSSLOptions* mutable_ssl_options(); const void* retry_policy; };
struct Channel : google::protobuf::RpcChannel { int Init(const char*, const ChannelOptions*); int Init(const char*, const char*, const ChannelOptions*); void CallMethod(const google::protobuf::MethodDescriptor*, google::protobuf::RpcController*, const google::protobuf::Message*, google::protobuf::Message*, google::protobuf::Closure*) override; };
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct Server { int AddService(google::protobuf::Service*, ServiceOwnership); int Start(int, const ServerOptions*); int Start(const char*, const ServerOptions*); int Stop(int); int Join(); void RunUntilAskedToQuit(); ServerOptions options() const; butil::EndPoint listen_address() const; };
}
