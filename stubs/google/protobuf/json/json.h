#pragma once
#include <google/protobuf/util/json_util.h>
namespace google::protobuf::json { using namespace google::protobuf::util; using ParseOptions = google::protobuf::util::JsonParseOptions; using PrintOptions = google::protobuf::util::JsonPrintOptions; }
