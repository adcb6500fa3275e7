// Shared helpers of the harnesses.
#ifndef COMMON_H_
#define COMMON_H_
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "google/api/metric.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "google/protobuf/stubs/logging.h"
#include "google/protobuf/stubs/status.h"
#include "google/protobuf/text_format.h"
#include "google/protobuf/util/message_differencer.h"

#include "include/service_control_client.h"
#include "pbt.h"

namespace scc = google::service_control_client;
using google::api::MetricDescriptor;
using google::api::servicecontrol::v1::AllocateQuotaRequest;
using google::api::servicecontrol::v1::AllocateQuotaResponse;
using google::api::servicecontrol::v1::CheckError;
using google::api::servicecontrol::v1::CheckRequest;
using google::api::servicecontrol::v1::CheckResponse;
using google::api::servicecontrol::v1::Distribution;
using google::api::servicecontrol::v1::LogEntry;
using google::api::servicecontrol::v1::MetricValue;
using google::api::servicecontrol::v1::MetricValueSet;
using google::api::servicecontrol::v1::Operation;
using google::api::servicecontrol::v1::QuotaError;
using google::api::servicecontrol::v1::QuotaOperation;
using google::api::servicecontrol::v1::ReportRequest;
using google::api::servicecontrol::v1::ReportResponse;
using google::protobuf::util::OkStatus;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;

typedef std::map<std::string, std::string> Labels;

inline void QuietLogs() { google::protobuf::SetLogHandler(nullptr); }

// Serialisation that does not depend on map order.
inline std::string Det(const google::protobuf::Message& m) {
  std::string out;
  {
    google::protobuf::io::StringOutputStream os(&out);
    google::protobuf::io::CodedOutputStream co(&os);
    co.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&co);
  }
  return out;
}
inline std::string Short(const google::protobuf::Message& m, size_t n = 400) {
  std::string s = m.ShortDebugString();
  if (s.size() > n) s = s.substr(0, n) + "...";
  return s;
}
// Any error there is, and ones this version does not know.
template <class E> inline E GenErrorCode(pbt::Src& s, const google::protobuf::EnumDescriptor* d, E usual) {
  if (s.Chance(1, 2)) return usual;
  int i = s.Below(d->value_count() + 1);
  return (E)(i < d->value_count() ? d->value(i)->number() : 499);
}
inline CheckError::Code GenCheckCode(pbt::Src& s) { return GenErrorCode(s, CheckError::Code_descriptor(), CheckError::PERMISSION_DENIED); }
inline QuotaError::Code GenQuotaCode(pbt::Src& s) { return GenErrorCode(s, QuotaError::Code_descriptor(), QuotaError::RESOURCE_EXHAUSTED); }
inline std::string LabelStr(const Labels& l) {
  std::string r = "{";
  for (auto& k : l) r += k.first + "=" + k.second + ",";
  return r + "}";
}
inline std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch < 0x20 || ch >= 0x7f || ch == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    else r += ch;
  }
  return r;
}
template <class M> Labels LabelsOf(const M& m) { return Labels(m.labels().begin(), m.labels().end()); }
#endif
