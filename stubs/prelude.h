// headers the real third-party includes bring in transitively
#pragma once
#include <random>
#include <numeric>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <queue>
#include <array>
#include <atomic>
#include <functional>
#include <optional>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <future>
#include <memory>
#include <absl/strings/string_view.h>
#include <absl/strings/numbers.h>
#include <absl/types/span.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <spdlog/spdlog.h>
#include <absl/strings/string_view.h>
#include <absl/strings/ascii.h>
#include <absl/strings/str_cat.h>
#include <absl/strings/str_join.h>
#include <absl/strings/str_split.h>
