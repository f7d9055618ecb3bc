// gRPC core (the C API below libgrpc++) replaced by the simulated network: channels, calls, batches and completion
// queues. Slices, byte buffers, metadata arrays and everything of libgrpc++ itself stay real.
#include "sim.h"
#include "rng.h"
#include <grpc/byte_buffer.h>
#include <grpc/byte_buffer_reader.h>
#include <grpc/impl/codegen/byte_buffer_reader.h>
#include <grpc/support/string_util.h>
#include <grpc/grpc.h>
#include <grpc/grpc_security.h>
#include <grpc/slice.h>
#include <grpc/support/alloc.h>
#include <cstring>

void serve(Conn *c);
int64_t g_slowCancel = 0, g_slowCancelTime = 0;

struct grpc_channel { std::string target; };
struct grpc_call;
struct Batch { void *tag; grpc_call *call; bool recvMsg = false, recvStatus = false; std::vector<grpc_op> ops; };
struct grpc_completion_queue { std::vector<Batch *> batches; };
struct grpc_call {
    int refs = 1;
    std::string target, path, host;
    Conn *conn = nullptr;
    grpc_completion_queue *cq = nullptr;
    bool cancelled = false, slow = false;
    std::string body;
};
struct grpc_channel_credentials { int refs; };
struct grpc_completion_queue_factory { int dummy; };

static std::string sliceStr(const grpc_slice &s) { return std::string(reinterpret_cast<const char *>(GRPC_SLICE_START_PTR(s)), GRPC_SLICE_LENGTH(s)); }

extern "C" {
void grpc_init(void) {}
void grpc_shutdown(void) {}
void grpc_shutdown_blocking(void) {}
int grpc_is_initialized(void) { return 1; }
grpc_channel_credentials *grpc_insecure_credentials_create(void) { return new grpc_channel_credentials{1}; }
grpc_channel_credentials *grpc_ssl_credentials_create(const char *, grpc_ssl_pem_key_cert_pair *, const verify_peer_options *, void *) { return new grpc_channel_credentials{1}; }
void grpc_channel_credentials_release(grpc_channel_credentials *c) { delete c; }
grpc_channel *grpc_channel_create(const char *target, grpc_channel_credentials *, const grpc_channel_args *) { return new grpc_channel{target}; }
void grpc_channel_destroy(grpc_channel *c) { delete c; }
grpc_connectivity_state grpc_channel_check_connectivity_state(grpc_channel *, int) { return GRPC_CHANNEL_READY; }

static const grpc_completion_queue_factory g_factory = {0};
const grpc_completion_queue_factory *grpc_completion_queue_factory_lookup(const grpc_completion_queue_attributes *) { return &g_factory; }
grpc_completion_queue *grpc_completion_queue_create(const grpc_completion_queue_factory *, const grpc_completion_queue_attributes *, void *) { return new grpc_completion_queue; }
grpc_completion_queue *grpc_completion_queue_create_for_next(void *) { return new grpc_completion_queue; }
grpc_completion_queue *grpc_completion_queue_create_for_pluck(void *) { return new grpc_completion_queue; }
void grpc_completion_queue_shutdown(grpc_completion_queue *) {}
void grpc_completion_queue_destroy(grpc_completion_queue *q) { for (auto b : q->batches) delete b; delete q; }

grpc_call *grpc_channel_create_call(grpc_channel *ch, grpc_call *, uint32_t, grpc_completion_queue *cq, grpc_slice method, const grpc_slice *host, gpr_timespec, void *)
{
    auto c = new grpc_call;
    c->target = ch->target;
    c->path = sliceStr(method);
    if (host) c->host = sliceStr(*host);
    c->cq = cq;
    grpc_slice_unref(method);
    if (host) grpc_slice_unref(*host);
    return c;
}
void *grpc_channel_register_call(grpc_channel *, const char *, const char *, void *) { return nullptr; }
void grpc_census_call_set_context(grpc_call *, struct census_context *) {}
void grpc_call_ref(grpc_call *c) { c->refs++; }
void grpc_call_unref(grpc_call *c)
{
    if (--c->refs) return;
    if (c->conn) net::cancel(c->conn);
    delete c;
}
char *grpc_call_get_peer(grpc_call *c) { return gpr_strdup(c->target.c_str()); }
int grpc_call_failed_before_recv_message(const grpc_call *c) { return c->cancelled; }
grpc_call_error grpc_call_cancel(grpc_call *c, void *)
{
    if (c->cancelled) return GRPC_CALL_OK;
    c->cancelled = true;
    if (c->conn) net::cancel(c->conn);
    return GRPC_CALL_OK;
}
grpc_call_error grpc_call_cancel_with_status(grpc_call *c, grpc_status_code, const char *, void *) { return grpc_call_cancel(c, nullptr); }

grpc_call_error grpc_call_start_batch(grpc_call *c, const grpc_op *ops, size_t n, void *tag, void *)
{
    auto b = new Batch;
    b->tag = tag;
    b->call = c;
    for (size_t i = 0; i < n; i++) {
        b->ops.push_back(ops[i]);
        if (ops[i].op == GRPC_OP_SEND_MESSAGE) {
            grpc_byte_buffer_reader r;
            grpc_byte_buffer_reader_init(&r, ops[i].data.send_message.send_message);
            grpc_slice s = grpc_byte_buffer_reader_readall(&r);
            c->body = sliceStr(s);
            grpc_slice_unref(s);
            grpc_byte_buffer_reader_destroy(&r);
            c->conn = net::open(true, "POST", "grpc", c->target, c->path, {}, c->body);
            serve(c->conn);
            if (c->cancelled) net::cancel(c->conn);
        }
        if (ops[i].op == GRPC_OP_RECV_MESSAGE) b->recvMsg = true;
        if (ops[i].op == GRPC_OP_RECV_STATUS_ON_CLIENT) b->recvStatus = true;
    }
    c->cq->batches.push_back(b);
    return GRPC_CALL_OK;
}

static bool ready(Batch *b)
{
    Conn *c = b->call->conn;
    if (!c || c->cancelled || b->call->cancelled) return true;
    if (b->recvStatus && b->recvMsg) return c->statusReady;
    if (b->recvStatus) return c->statusReady;
    if (b->recvMsg) return c->taken < c->pushed || c->statusReady;
    return true;
}

static void complete(Batch *b)
{
    Conn *c = b->call->conn;
    bool cancelled = !c || c->cancelled || b->call->cancelled;
    for (auto &o : b->ops) {
        if (o.op == GRPC_OP_RECV_MESSAGE) {
            *o.data.recv_message.recv_message = nullptr;
            if (cancelled) continue;
            if (b->recvStatus && c->end.kind == "st") continue;
            if (c->taken >= c->pushed) continue;
            size_t from = c->taken ? c->frameEnd[c->taken - 1] : 0, to = c->frameEnd[c->taken];
            std::string p = c->bytes.substr(from + 5, to - from - 5);
            c->taken++;
            c->arrived = to;
            Rng r(mix(c->cutSeed, c->taken));
            std::vector<grpc_slice> sl;
            size_t off = 0;
            int pieces = int(r.below(3));
            while (pieces-- > 0 && off < p.size()) {
                size_t k = r.below(p.size() - off + 1);
                sl.push_back(grpc_slice_from_copied_buffer(p.data() + off, k));
                off += k;
            }
            sl.push_back(grpc_slice_from_copied_buffer(p.data() + off, p.size() - off));
            if (sl.size() > 1) fired("message split");
            *o.data.recv_message.recv_message = grpc_raw_byte_buffer_create(sl.data(), sl.size());
            for (auto &s : sl) grpc_slice_unref(s);
            sim::focus(g_arrivalFocus);
            if (g_onArrival) { g_onArrival(c, false, false); g_onArrival(c, false, true); }
            hist(Arrive, c->id, int64_t(c->arrived));
            hist(ArriveDone, c->id);
        }
        if (o.op == GRPC_OP_RECV_STATUS_ON_CLIENT) {
            auto &d = o.data.recv_status_on_client;
            if (cancelled) {
                *d.status = GRPC_STATUS_CANCELLED;
                *d.status_details = grpc_slice_from_static_string("CANCELLED");
            } else {
                *d.status = c->end.kind == "st" ? grpc_status_code(c->end.arg) : GRPC_STATUS_OK;
                *d.status_details = grpc_slice_from_copied_string(c->end.kind == "st" ? c->end.msg.c_str() : "");
                if (!c->ended) {
                    c->ended = true;
                    c->endT = sim::now();
                    if (g_onArrival) { g_onArrival(c, true, false); g_onArrival(c, true, true); }
                    if (c->end.kind == "st") fired("server status");
                    hist(End, c->id);
                    hist(EndDone, c->id);
                }
            }
            if (d.error_string) *d.error_string = nullptr;
        }
    }
}

grpc_event grpc_completion_queue_pluck(grpc_completion_queue *q, void *tag, gpr_timespec, void *)
{
    Batch *b = nullptr;
    for (size_t i = 0; i < q->batches.size(); i++)
        if (q->batches[i]->tag == tag) { b = q->batches[i]; q->batches.erase(q->batches.begin() + long(i)); break; }
    grpc_event e;
    memset(&e, 0, sizeof e);
    e.type = GRPC_OP_COMPLETE;
    e.tag = tag;
    if (!b) { e.type = GRPC_QUEUE_TIMEOUT; return e; }
    sim::yield("pluck");
    while (!ready(b)) sim::blockOn(b->call->conn);
    if (g_slowCancel > 0 && b->call->cancelled && !b->call->slow && b->call->conn) {
        // the library below takes its time to give up
        b->call->slow = true;
        Rng r(mix(b->call->conn->cutSeed, 77));
        int64_t d = r.range(0, g_slowCancel);
        g_slowCancelTime += d;
        fired("slow cancellation");
        sim::sleepFor(d);
    }
    e.success = 1;
    complete(b);
    delete b;
    sim::yield("plucked");
    return e;
}
grpc_event grpc_completion_queue_next(grpc_completion_queue *, gpr_timespec, void *)
{
    grpc_event e;
    memset(&e, 0, sizeof e);
    e.type = GRPC_QUEUE_SHUTDOWN;
    return e;
}
}
