// The program is written for spdlog 0.x; this sandbox has spdlog 1.x.  These are the calls of broker_core.cpp that
// are gone, with the same meaning (of which only the flushing matters here).
#pragma once
#ifdef __cplusplus
#include <chrono>
#include <functional>
#include <memory>
#include <string>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/rotating_file_sink.h>
namespace spdlog {
enum class async_overflow_policy_0 { block_retry, discard_log_msg };
struct async_overflow_policy_shim { static constexpr async_overflow_policy_0 block_retry = async_overflow_policy_0::block_retry; static constexpr async_overflow_policy_0 discard_log_msg = async_overflow_policy_0::discard_log_msg; };
template <class... A> inline void set_async_mode(A &&...) { flush_every(std::chrono::seconds(1)); }
inline std::shared_ptr<logger> create(const std::string &name, std::shared_ptr<sinks::sink> sink)
{
	auto l = std::make_shared<logger>(name, sink);
	register_logger(l);
	return l;
}
}
#ifndef SPDLOG_ASYNC_H_SEEN
namespace spdlog { using async_overflow_policy = async_overflow_policy_shim; }
#endif
#endif
