// C25: the sample transport over a fake libcurl whose outcomes are generated.
#include <curl/curl.h>
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <thread>

#include "common.h"
#include "sample/transport/http_transport.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

using scc::sample::transport::LibCurlTransport;
typedef google::protobuf::Message Message;

// ---- what the server does ------------------------------------------------------
struct Outcome {
  int no = 0;
  bool report = false;
  std::string url, want_body, body;
  CURLcode error = CURLE_OK;       // transfer error
  size_t cut = 0;                  // bytes of the body delivered before the error
  long code = 0;                   // HTTP code received, 0: none
  std::vector<size_t> chunks;
  // what was seen
  int performed = 0;
  std::vector<std::string> errors;
};
struct World {
  std::mutex m;
  std::condition_variable cv;
  bool go = false;
  std::map<int, Outcome*> outcomes;
  std::vector<std::string> errors;
  std::set<void*> handles, lists;
};
static World* g_world = nullptr;
static std::atomic<int> g_global{0};

struct Fake {
  std::map<int, long> nums;
  std::map<int, void*> ptrs;
  std::map<int, curl_off_t> offs;
  std::string url, custom, copied;
  bool has_copied = false;
  curl_write_callback write = nullptr;
  long code = 0;
};
struct Slist { curl_slist s; };

extern "C" {
CURLcode curl_global_init(long) { ++g_global; return CURLE_OK; }
void curl_global_cleanup(void) { --g_global; }
CURL* curl_easy_init(void) {
  Fake* f = new Fake;
  std::lock_guard<std::mutex> l(g_world->m);
  g_world->handles.insert(f);
  return f;
}
void curl_easy_cleanup(CURL* c) {
  if (!c) return;
  { std::lock_guard<std::mutex> l(g_world->m);
    if (!g_world->handles.erase(c)) g_world->errors.push_back("curl_easy_cleanup of a handle that is not live"); }
  delete static_cast<Fake*>(c);
}
void curl_easy_reset(CURL* c) { *static_cast<Fake*>(c) = Fake(); }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  Fake* f = static_cast<Fake*>(c);
  va_list ap;
  va_start(ap, o);
  int type = (int)o / 10000;
  if (type == 0) {
    f->nums[o] = va_arg(ap, long);
  } else if (type == 3) {
    f->offs[o] = va_arg(ap, curl_off_t);
  } else {
    void* p = va_arg(ap, void*);
    if (o == CURLOPT_URL) f->url = p ? (const char*)p : "";
    else if (o == CURLOPT_CUSTOMREQUEST) f->custom = p ? (const char*)p : "";
    else if (o == CURLOPT_WRITEFUNCTION) f->write = (curl_write_callback)p;
    else if (o == CURLOPT_COPYPOSTFIELDS) {
      size_t n = f->offs.count(CURLOPT_POSTFIELDSIZE_LARGE) ? f->offs[CURLOPT_POSTFIELDSIZE_LARGE]
               : f->nums.count(CURLOPT_POSTFIELDSIZE) ? f->nums[CURLOPT_POSTFIELDSIZE] : strlen((const char*)p);
      f->copied.assign((const char*)p, n);
      f->has_copied = true;
    } else f->ptrs[o] = p;
  }
  va_end(ap);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  va_list ap;
  va_start(ap, i);
  void* p = va_arg(ap, void*);
  va_end(ap);
  if (i == CURLINFO_RESPONSE_CODE) { *(long*)p = static_cast<Fake*>(c)->code; return CURLE_OK; }
  return CURLE_UNKNOWN_OPTION;
}
const char* curl_easy_strerror(CURLcode) { return "fake error"; }
struct curl_slist* curl_slist_append(struct curl_slist* l, const char* s) {
  curl_slist* n = new curl_slist{strdup(s), nullptr};
  { std::lock_guard<std::mutex> g(g_world->m); g_world->lists.insert(n); }
  if (!l) return n;
  curl_slist* t = l;
  while (t->next) t = t->next;
  t->next = n;
  return l;
}
void curl_slist_free_all(struct curl_slist* l) {
  while (l) {
    curl_slist* n = l->next;
    { std::lock_guard<std::mutex> g(g_world->m); g_world->lists.erase(l); }
    free(l->data);
    delete l;
    l = n;
  }
}
CURLcode curl_easy_perform(CURL* c) {
  Fake* f = static_cast<Fake*>(c);
  World* w = g_world;
  { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->go; }); }
  // What is sent.
  std::string body;
  if (f->has_copied) body = f->copied;
  else if (void* p = f->ptrs[CURLOPT_POSTFIELDS]) {
    long long n = -1;
    if (f->offs.count(CURLOPT_POSTFIELDSIZE_LARGE)) n = f->offs[CURLOPT_POSTFIELDSIZE_LARGE];
    else if (f->nums.count(CURLOPT_POSTFIELDSIZE)) n = f->nums[CURLOPT_POSTFIELDSIZE];
    if (n < 0) body.assign((const char*)p); else body.assign((const char*)p, n);
  }
  // Which call it is: the number is in the request.
  Outcome* o = nullptr;
  {
    CheckRequest cr;
    ReportRequest rr;
    std::lock_guard<std::mutex> l(w->m);
    int no = -1;
    if (f->url.find(":report") != std::string::npos) { if (rr.ParseFromString(body)) no = atoi(rr.service_name().c_str()); }
    else if (cr.ParseFromString(body)) no = atoi(cr.service_name().c_str());
    if (w->outcomes.count(no)) o = w->outcomes[no];
    if (!o) { w->errors.push_back("a request was posted that nobody made, to " + f->url + ", " + std::to_string(body.size()) + " bytes"); return CURLE_SEND_ERROR; }
    if (o->performed++) o->errors.push_back("the request was posted twice");
    if (f->url != o->url) o->errors.push_back("posted to " + f->url + ", expected " + o->url);
    if (body != o->want_body) {
      CheckRequest a; ReportRequest b; CheckRequest a2; ReportRequest b2;
      bool same = o->report ? b.ParseFromString(body) && b2.ParseFromString(o->want_body) && Det(b) == Det(b2)
                            : a.ParseFromString(body) && a2.ParseFromString(o->want_body) && Det(a) == Det(a2);
      if (!same) o->errors.push_back("posted " + std::to_string(body.size()) + " bytes that are not the request of " + std::to_string(o->want_body.size()) + " bytes");
    }
    bool post = f->custom == "POST" || (f->custom.empty() && (f->has_copied || f->ptrs[CURLOPT_POSTFIELDS] || f->nums[CURLOPT_POST]));
    if (!post) o->errors.push_back("the request is not a POST");
    bool auth = false, type = false;
    for (curl_slist* s = (curl_slist*)f->ptrs[CURLOPT_HTTPHEADER]; s; s = s->next) {
      if (!strcmp(s->data, "Authorization: Bearer secret-token")) auth = true;
      if (!strcmp(s->data, "Content-Type: application/x-protobuf")) type = true;
    }
    if (!auth) o->errors.push_back("the request has no authorization header");
    if (!type) o->errors.push_back("the request has no content type");
  }
  // What comes back.
  f->code = o->code;
  if (f->nums[CURLOPT_FAILONERROR] && o->code >= 400) return CURLE_HTTP_RETURNED_ERROR;
  size_t n = o->error == CURLE_OK ? o->body.size() : std::min(o->cut, o->body.size());
  size_t pos = 0, k = 0;
  while (pos < n) {
    size_t len = std::min(n - pos, k < o->chunks.size() ? o->chunks[k++] : n - pos);
    if (!len) continue;
    std::string part = o->body.substr(pos, len);   // own memory: gone after the callback
    if (f->write) {
      if (f->write(&part[0], 1, len, f->ptrs[CURLOPT_WRITEDATA]) != len) return CURLE_WRITE_ERROR;
    }
    pos += len;
  }
  return o->error;
}
}  // extern "C"

static StatusCode Want(long code) {
  switch (code) {
    case 400: return StatusCode::kInvalidArgument;
    case 401: return StatusCode::kUnauthenticated;
    case 403: return StatusCode::kPermissionDenied;
    case 404: return StatusCode::kNotFound;
    case 409: return StatusCode::kAborted;
    case 416: return StatusCode::kOutOfRange;
    case 429: return StatusCode::kResourceExhausted;
    case 499: return StatusCode::kCancelled;
    case 501: return StatusCode::kUnimplemented;
    case 503: return StatusCode::kUnavailable;
    case 504: return StatusCode::kDeadlineExceeded;
  }
  if (code >= 400 && code < 500) return StatusCode::kFailedPrecondition;
  if (code >= 500 && code < 600) return StatusCode::kInternal;
  return StatusCode::kUnknown;
}

struct State {
  std::mutex m;
  std::condition_variable cv;
  int done = 0;
  Status status;
};

static std::string Bytes(pbt::Src& s, int max) {
  std::string r;
  int n = s.Below(max + 1);
  for (int i = 0; i < n; ++i) r += (char)s.OneOf({'a', '\0', '\n', '\xff', '"', '&', 'z'});
  return r;
}

static std::string Text(pbt::Src& s, int max) {   // valid UTF-8
  std::string r;
  int n = s.Below(max + 1);
  for (int i = 0; i < n; ++i) { int k = s.Below(6); r += k == 0 ? std::string("a") : k == 1 ? std::string(1, '\0') : k == 2 ? "\n" : k == 3 ? "\xc3\xa9" : k == 4 ? "&" : "z"; }
  return r;
}

void PbtCase(pbt::Src& s, pbt::Ctx& c) {
  QuietLogs();
  std::cout.setstate(std::ios::failbit);
  World* world = new World;
  g_world = world;
  int ncalls = s.Pick({6, 2, 1}) + 1;
  auto transport = std::make_unique<LibCurlTransport>("https://sc.example.com", "svc name", "secret-token");
  std::vector<std::unique_ptr<Outcome>> outcomes;
  std::vector<std::shared_ptr<State>> states;
  std::vector<std::unique_ptr<Message>> resps;
  for (int i = 0; i < ncalls; ++i) {
    pbt::Span sp(s);
    auto o = std::make_unique<Outcome>();
    o->no = i + 1;
    o->report = s.Chance(1, 2);
    o->url = std::string("https://sc.example.com/v1/services/svc name:") + (o->report ? "report" : "check");
    // The request.
    std::unique_ptr<Message> req, resp, good;
    auto op = [&](Operation* op) {
      op->set_operation_id(Text(s, 3));
      op->set_operation_name(Text(s, 6));
      op->set_consumer_id("project:a");
      for (int n = s.Below(3); n > 0; --n) (*op->mutable_labels())["k" + std::to_string(n)] = "v";
      if (s.Chance(1, 3)) { op->mutable_start_time()->set_seconds(s.Below(1000)); op->add_metric_value_sets()->add_metric_values()->set_int64_value(s.Below(3)); }
      if (s.Chance(1, 12)) op->add_log_entries()->set_text_payload(std::string(s.Range(1000, 70000), 'x'));
    };
    if (o->report) {
      auto r = std::make_unique<ReportRequest>();
      r->set_service_name(std::to_string(o->no));
      for (int n = s.Range(0, 3); n > 0; --n) op(r->add_operations());
      req = std::move(r);
      auto p = std::make_unique<ReportResponse>();
      for (int n = s.Below(3); n > 0; --n) p->add_report_errors()->set_operation_id("e" + Text(s, 4));
      good = std::move(p);
      auto old = std::make_unique<ReportResponse>();
      old->add_report_errors()->set_operation_id("old");
      resp = std::move(old);
    } else {
      auto r = std::make_unique<CheckRequest>();
      r->set_service_name(std::to_string(o->no));
      op(r->mutable_operation());
      req = std::move(r);
      auto p = std::make_unique<CheckResponse>();
      p->set_operation_id("e" + Text(s, 4));
      for (int n = s.Below(3); n > 0; --n) p->add_check_errors()->set_detail(Text(s, 5));
      good = std::move(p);
      auto old = std::make_unique<CheckResponse>();
      old->add_check_errors()->set_detail("old");
      resp = std::move(old);
    }
    req->SerializeToString(&o->want_body);
    // The server and the network.
    int shape = s.Pick({5, 4, 3, 3});
    static const long listed[] = {400, 401, 403, 404, 409, 416, 429, 499, 501, 503, 504};
    auto code = [&]() -> long {
      switch (s.Pick({4, 3, 1})) {
        case 0: return listed[s.Below(11)];
        case 1: return s.Range(400, 599);
        default: return s.OneOf({402, 499, 500, 405, 599, 600, 999});
      }
    };
    std::string body;
    good->SerializeToString(&body);
    if (shape == 1) o->code = code();
    else if (shape == 2) {   // the transfer breaks
      o->error = s.OneOf({CURLE_COULDNT_CONNECT, CURLE_COULDNT_RESOLVE_HOST, CURLE_OPERATION_TIMEDOUT, CURLE_PARTIAL_FILE, CURLE_RECV_ERROR, CURLE_GOT_NOTHING, CURLE_SSL_CONNECT_ERROR, CURLE_UNSUPPORTED_PROTOCOL});
      o->code = s.Chance(1, 2) ? 0 : s.Chance(1, 2) ? s.OneOf({200, 204, 100, 302, 299}) : code();
      o->cut = s.Below(body.size() + 1);
    } else {
      o->code = s.OneOf({200, 200, 200, 204, 299, 302, 100});
      if (shape == 3) switch (s.Below(4)) {
        case 0: body = "<html>not a protobuf</html>"; break;
        case 1: body = body.substr(0, body.size() ? body.size() - 1 : 0); break;
        case 2: body += Bytes(s, 8); break;
        default: body = Bytes(s, 12); break;
      }
    }
    if (shape == 1 && s.Chance(1, 2)) body = Bytes(s, 12);
    o->body = body;
    for (int n = s.Below(5); n > 0; --n) o->chunks.push_back(s.Range(0, 6));
    PBT_LOG(c, "call %d: %s, %zu byte request, server: error %d, code %ld, %zu byte body", o->no, o->report ? "Report" : "Check", o->want_body.size(), (int)o->error, o->code, o->body.size());
    { std::lock_guard<std::mutex> l(world->m); world->outcomes[o->no] = o.get(); }
    auto st = std::make_shared<State>();
    auto done = [st](const Status& x) {
      std::lock_guard<std::mutex> l(st->m);
      st->status = x;
      ++st->done;
      st->cv.notify_all();
    };
    if (o->report) transport->Report(static_cast<ReportRequest&>(*req), static_cast<ReportResponse*>(resp.get()), done);
    else transport->Check(static_cast<CheckRequest&>(*req), static_cast<CheckResponse*>(resp.get()), done);
    { auto drop = std::move(done); }
    req.reset();   // the request need not outlive the call
    states.push_back(st);
    resps.push_back(std::move(resp));
    outcomes.push_back(std::move(o));
  }
  { std::lock_guard<std::mutex> l(world->m); world->go = true; world->cv.notify_all(); }
  for (int i = 0; i < ncalls && !c.failed; ++i) {
    Outcome& o = *outcomes[i];
    State& st = *states[i];
    {
      std::unique_lock<std::mutex> l(st.m);
      if (!st.cv.wait_for(l, std::chrono::seconds(20), [&] { return st.done > 0; })) { c.Fail("C25", "call %d was never completed", o.no); break; }
    }
    // The callback is destroyed when the transport is through with the call.
    double until = pbt::RealNow() + 5;
    while (states[i].use_count() > 1 && pbt::RealNow() < until) sched_yield();
    std::lock_guard<std::mutex> l(st.m);
    if (st.done != 1) c.Fail("C25", "call %d was completed %d times", o.no, st.done);
    for (auto& e : o.errors) c.Fail("C25", "call %d: %s", o.no, e.c_str());
    if (!o.performed) c.Fail("C25", "call %d was never posted", o.no);
    StatusCode got = st.status.code();
    bool failed = o.error != CURLE_OK || o.code >= 400;
    if (failed) {
      c.Label(o.error != CURLE_OK ? "transfer failed" : "HTTP error");
      if (got != Want(o.code)) c.Fail("C25", "call %d failed with HTTP code %ld and was completed with status %d, expected %d", o.no, o.code, (int)got, (int)Want(o.code));
    } else {
      std::unique_ptr<Message> want(resps[i]->New());
      bool ok = want->ParseFromString(o.body);
      c.Label(ok ? "succeeded" : "unreadable response");
      if (got != (ok ? StatusCode::kOk : StatusCode::kInvalidArgument)) c.Fail("C25", "call %d: the body %s and the status is %d", o.no, ok ? "parses" : "does not parse", (int)got);
      else if (ok && Det(*want) != Det(*resps[i])) c.Fail("C25", "call %d got the response %s, the server sent %s", o.no, Short(*resps[i]).c_str(), Short(*want).c_str());
    }
    c.nontrivial |= failed || o.body.size() > 0;
  }
  for (auto& e : world->errors) if (c.failed) c.message += "; " + e;
  if (c.failed) { transport.release(); return; }   // threads may be left
  transport.reset();
  std::lock_guard<std::mutex> l(world->m);
  for (auto& e : world->errors) c.Fail("C25", "%s", e.c_str());
  if (!world->handles.empty()) c.Fail("C25", "%zu transfer handles were never cleaned up", world->handles.size());
  if (!world->lists.empty()) c.Fail("C25", "%zu header list entries were never freed", world->lists.size());
}

const char* PbtRule(const std::string&) {
  return "1-3 concurrent calls of the sample transport over a fake libcurl: generated requests (zero bytes included), HTTP codes, transfer errors (before, within and after the body), bodies valid and not, delivered in generated chunks. Non-trivial: a failure or a response with a body.";
}
#include "pbt.h"
