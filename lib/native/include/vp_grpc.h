// The part of the grpc interface the engine uses, over an in-process transport in which every
// delivery is a step chosen by the explorer (see vp.cc). Messages are serialised on both ways.
#pragma once
#include <condition_variable>
#include <cstdlib>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include <google/protobuf/message.h>

#define GPR_ASSERT(x)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(x))                                                                                                      \
            ::abort();                                                                                                 \
    } while (0)

namespace grpc
{
enum StatusCode
{
    OK = 0,
    CANCELLED = 1,
    UNKNOWN = 2,
    INVALID_ARGUMENT = 3,
    DEADLINE_EXCEEDED = 4,
    NOT_FOUND = 5,
    ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7,
    RESOURCE_EXHAUSTED = 8,
    FAILED_PRECONDITION = 9,
    ABORTED = 10,
    OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12,
    INTERNAL = 13,
    UNAVAILABLE = 14,
    DATA_LOSS = 15,
    UNAUTHENTICATED = 16
};

class Status
{
  public:
    Status() = default;
    Status(StatusCode code, const std::string &message) : m_code(code), m_message(message)
    {
    }
    Status(StatusCode code, const std::string &message, const std::string &) : m_code(code), m_message(message)
    {
    }
    static const Status &OK;
    static const Status &CANCELLED;
    bool ok() const
    {
        return m_code == StatusCode::OK;
    }
    StatusCode error_code() const
    {
        return m_code;
    }
    std::string error_message() const
    {
        return m_message;
    }
    std::string error_details() const
    {
        return "";
    }

  private:
    StatusCode m_code = StatusCode::OK;
    std::string m_message;
};

class ClientContext
{
  public:
    template <class T> void set_deadline(const T &)
    {
    }
    void set_wait_for_ready(bool)
    {
    }
    void TryCancel()
    {
    }
    void AddMetadata(const std::string &, const std::string &)
    {
    }
};
class ServerContext
{
  public:
    bool IsCancelled() const
    {
        return false;
    }
};
using ServerContextBase = ServerContext;

struct VpItem
{
    void *tag = nullptr;
    bool ok = false;
    bool done = false;
};

class CompletionQueue
{
  public:
    CompletionQueue();
    virtual ~CompletionQueue();
    CompletionQueue(const CompletionQueue &) = delete;
    CompletionQueue &operator=(const CompletionQueue &) = delete;
    bool Next(void **tag, bool *ok);
    void Shutdown();

    struct State;
    std::shared_ptr<State> vp;
};
class ServerCompletionQueue : public CompletionQueue
{
};

struct VpCall; // one request on its way
struct VpServer;

class Channel
{
  public:
    explicit Channel(std::string address) : vp_address(std::move(address))
    {
    }
    std::string vp_address;
};
using ChannelInterface = Channel;

class ChannelArguments
{
  public:
    void SetMaxReceiveMessageSize(int)
    {
    }
    void SetMaxSendMessageSize(int)
    {
    }
    void SetInt(const std::string &, int)
    {
    }
    void SetString(const std::string &, const std::string &)
    {
    }
    void SetServiceConfigJSON(const std::string &)
    {
    }
};

class ChannelCredentials
{
};
class ServerCredentials
{
};
struct SslCredentialsOptions
{
    std::string pem_root_certs, pem_private_key, pem_cert_chain;
};
struct SslServerCredentialsOptions
{
    struct PemKeyCertPair
    {
        std::string private_key, cert_chain;
    };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &)
{
    return std::make_shared<ChannelCredentials>();
}
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &)
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<Channel> CreateCustomChannel(const std::string &address,
                                                    const std::shared_ptr<ChannelCredentials> &,
                                                    const ChannelArguments &)
{
    return std::make_shared<Channel>(address);
}
inline std::shared_ptr<Channel> CreateChannel(const std::string &address, const std::shared_ptr<ChannelCredentials> &)
{
    return std::make_shared<Channel>(address);
}
inline void EnableDefaultHealthCheckService(bool)
{
}

// -- client side ------------------------------------------------------------------------------
std::shared_ptr<VpCall> vp_prepare(const std::string &address, const char *method,
                                   const google::protobuf::MessageLite &request, CompletionQueue *cq);
void vp_send(const std::shared_ptr<VpCall> &call, google::protobuf::MessageLite *reply, Status *status, void *tag);

template <class R> class ClientAsyncResponseReader
{
  public:
    explicit ClientAsyncResponseReader(std::shared_ptr<VpCall> call) : m_call(std::move(call))
    {
    }
    void StartCall()
    {
    }
    void Finish(R *reply, Status *status, void *tag)
    {
        vp_send(m_call, reply, status, tag);
    }

  private:
    std::shared_ptr<VpCall> m_call;
};
template <class R> using ClientAsyncResponseReaderInterface = ClientAsyncResponseReader<R>;
template <class R> class ClientReader;
template <class W> class ClientWriter;
template <class W, class R> class ClientReaderWriter;

// -- server side ------------------------------------------------------------------------------
void vp_answer(const std::shared_ptr<VpCall> &call, const google::protobuf::MessageLite &reply, const Status &status,
               void *tag);

template <class R> class ServerAsyncResponseWriter
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *)
    {
    }
    void Finish(const R &reply, const Status &status, void *tag)
    {
        vp_answer(vp_call, reply, status, tag);
    }
    void FinishWithError(const Status &status, void *tag)
    {
        vp_answer(vp_call, R(), status, tag);
    }
    std::shared_ptr<VpCall> vp_call;
};

struct VpWaiting // a handler waiting for a request
{
    google::protobuf::MessageLite *request;
    std::function<void(std::shared_ptr<VpCall>)> take;
    std::shared_ptr<CompletionQueue::State> cq;
    void *tag;
};
class Service
{
  public:
    virtual ~Service() = default;
    struct State
    {
        std::mutex m;
        bool down = false;
        std::map<std::string, std::list<VpWaiting>> waiting;
    };
    std::shared_ptr<State> vp = std::make_shared<State>();

  protected:
    void vp_wait(const char *method, VpWaiting w);
};

class Server
{
  public:
    explicit Server(std::shared_ptr<VpServer> s) : vp(std::move(s))
    {
    }
    ~Server();
    void Shutdown();
    template <class T> void Shutdown(const T &)
    {
        Shutdown();
    }
    void Wait()
    {
    }
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &);
    std::shared_ptr<VpServer> vp;
};

class ServerBuilder
{
  public:
    ServerBuilder &SetMaxReceiveMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &SetMaxSendMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &SetMaxMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &AddListeningPort(const std::string &address, std::shared_ptr<ServerCredentials>,
                                    int *selected = nullptr)
    {
        m_address = address;
        if (selected)
            *selected = 1;
        return *this;
    }
    ServerBuilder &RegisterService(Service *s)
    {
        m_services.push_back(s);
        return *this;
    }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue(bool = true)
    {
        return std::make_unique<ServerCompletionQueue>();
    }
    std::unique_ptr<Server> BuildAndStart();

  private:
    std::string m_address;
    std::vector<Service *> m_services;
};
} // namespace grpc
