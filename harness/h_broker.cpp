// Stepper around the real broker_handler: reads scripted inputs, applies them to the code under test and
// records every input together with everything the broker emitted and its public projections.
// Uses only interfaces that the repository's own tests use.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <yaml-cpp/yaml.h>

#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"

#ifndef __SANITIZE_ADDRESS__
// With MONOTONE set, memory is handed out at ever higher addresses: what the code makes of the order of addresses then depends
// only on the order in which objects are created, and runs can be compared with each other.
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
static char *arena = nullptr;
static std::size_t arena_used = 0;
static const std::size_t ARENA = std::size_t(1) << 30;
static bool arena_on = [] {
	struct rlimit limit = {std::size_t(3) << 29, std::size_t(3) << 29}; // a runaway must not take the machine down
	setrlimit(RLIMIT_AS, &limit);
	if (!getenv("MONOTONE")) return false;
	void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return false;
	arena = static_cast<char *>(p);
	return true;
}();
void *operator new(std::size_t n)
{
	if (arena != nullptr && arena_used + n + 32 < ARENA) {
		char *p = arena + arena_used;
		arena_used += (n + 31) / 16 * 16;
		return p;
	}
	void *p = malloc(n ? n : 1);
	if (p == nullptr) throw std::bad_alloc();
	return p;
}
void operator delete(void *p) noexcept
{
	if (arena != nullptr && p >= arena && p < arena + ARENA) return;
	free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
	operator delete(p);
}
#endif

using strs = std::vector<std::string>;

static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}

static std::string js(const std::string &s)
{
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += static_cast<char>(c);
		} else if (c < 0x20 || c >= 0x7f) {
			snprintf(buf, sizeof buf, "\\u%04x", c);
			r += buf;
		} else {
			r += static_cast<char>(c);
		}
	}
	return r + "\"";
}

static std::string jl(const strs &v)
{
	std::string r = "[";
	for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js(v[i]);
	return r + "]";
}

struct world {
	std::shared_ptr<worker_registry> reg;
	std::shared_ptr<queue_manager_interface> queue;
	std::unique_ptr<broker_handler> handler;
	std::map<std::string, strs> kick_headers; // requirements only worker w is known to satisfy
	std::map<std::string, std::string> prev; // last job a worker reported on
	int kicks = 0;
	std::size_t jobs = 0; // at most so many jobs exist
	bool dead = false;
	std::vector<std::shared_ptr<void>> ballast;
} w;

static const char *NOJOB = "~no~job~";

static std::string current_of(const std::string &id)
{
	auto wk = w.reg->find_worker_by_identity(id);
	if (wk == nullptr) return NOJOB;
	auto r = w.queue->get_current_request(wk);
	return r == nullptr ? NOJOB : r->data.get_job_id();
}

static void step(const std::string &kind, const std::string &peer, strs frames)
{
	if (w.dead) return;
	for (auto &f : frames) {
		if (f == "@cur") {
			f = current_of(peer);
		} else if (f.compare(0, 5, "@cur:") == 0) {
			f = current_of(f.substr(5));
		} else if (f == "@near+" || f == "@near-" || f == "@near~") {
			auto kind = f[5]; // almost the id of the current job
			f = current_of(peer);
			if (f.empty() || kind == '+') f += "1";
			else if (kind == '-') f.pop_back();
			else f[0] ^= 0x20;
		} else if (f == "current_job=@CUR") {
			f = current_of(peer);
			f = "current_job=" + (f == NOJOB ? std::string("ext0" + peer) : f);
		} else if (f == "@prev") {
			f = w.prev.count(peer) ? w.prev[peer] : NOJOB;
		}
	}
	if (kind == "w" && frames.size() > 1 && frames[0] == "done") w.prev[peer] = frames[1];
	if (kind == "w" && frames.size() > 1 && frames[0] == "init") {
		strs h = {"hwgroup=" + frames[1]};
		for (std::size_t i = 2; i < frames.size() && frames[i] != ""; ++i) h.push_back(frames[i]);
		auto wk = w.reg->find_worker_by_identity(peer);
		w.kick_headers[peer] = h;
	}

	// announce the input first, so that it is known even if the step never returns
	std::cout << "{\"k\":" << js(kind) << ",\"p\":" << js(peer) << ",\"f\":" << jl(frames) << std::flush;

	std::vector<message_container> out, probe;
	std::string exc;
	auto respond = [&out](const message_container &m) {
		if (out.size() > 20000) throw std::runtime_error("endless output");
		out.push_back(m);
	};
	if (!frames.empty() && (frames[0] == "eval" || frames[0] == "init")) ++w.jobs;
	message_container msg;
	msg.key = kind == "w" ? broker_connect::KEY_WORKERS :
							(kind == "c" ? broker_connect::KEY_CLIENTS : broker_connect::KEY_TIMER);
	msg.identity = peer;
	msg.data = frames;
	try {
		w.handler->on_request(msg, respond);
		w.handler->on_request(message_container(broker_connect::KEY_CLIENTS, "~probe", {"get-runtime-stats"}),
			[&probe](const message_container &m) { probe.push_back(m); });
	} catch (std::exception &e) {
		exc = std::string("exception: ") + e.what();
		w.dead = true;
	} catch (...) {
		exc = "exception";
		w.dead = true;
	}

	std::cout << ",\"o\":[";
	bool first = true;
	for (auto &m : out) {
		strs all = {m.key, m.identity};
		all.insert(all.end(), m.data.begin(), m.data.end());
		std::cout << (first ? "" : ",") << jl(all);
		first = false;
	}
	std::cout << "]";
	strs regs, curs;
	if (exc.empty()) {
		for (auto &wk : w.reg->get_workers()) regs.push_back(wk->identity);
		for (auto &id : regs) {
			// distinct registrations of one identity would be visible as repeated entries of reg
			auto r = w.queue->get_current_request(w.reg->find_worker_by_identity(id));
			curs.push_back(r == nullptr ? "" : r->data.get_job_id());
		}
	}
	std::cout << ",\"reg\":" << jl(regs) << ",\"cur\":" << jl(curs)
			  << ",\"st\":" << jl(probe.size() == 1 ? probe[0].data : strs{}) << ",\"x\":" << js(exc) << "}\n";
}

static void drain()
{
	std::size_t left = w.jobs + 5; // every result must end a job
	while (true) {
		bool any = false;
		strs ids;
		for (auto &wk : w.reg->get_workers()) ids.push_back(wk->identity);
		for (auto &id : ids) {
			if (w.dead) return;
			auto c = current_of(id);
			if (c != NOJOB) {
				if (left-- == 0) return;
				any = true;
				step("w", id, {"done", c, "OK"});
			}
		}
		if (!any) return;
	}
}

static void reset(const strs &t)
{
	// t: reset mgr maxlive interval maxfail ballast
	static const std::shared_ptr<spdlog::logger> logger = helpers::create_null_logger();
	w = world();
	std::stringstream y;
	y << "workers: {max_liveness: " << t.at(2) << ", ping_interval: " << t.at(3) << ", max_request_failures: " << t.at(4)
	  << "}";
	auto cfg = std::make_shared<const broker_config>(YAML::Load(y.str()));
	w.reg = std::make_shared<worker_registry>();
	if (t.at(1) == "multi") {
		w.queue = std::make_shared<multi_queue_manager>();
	} else {
		w.queue = std::make_shared<single_queue_manager<>>();
	}
	w.handler = std::make_unique<broker_handler>(cfg, w.reg, w.queue, logger);
	std::cout << "{\"k\":\"reset\",\"p\":\"\",\"f\":" << jl(strs(t.begin() + 1, t.end()))
			  << ",\"o\":[],\"reg\":[],\"cur\":[],\"st\":[],\"x\":\"\"}\n";
}

static void marker(const std::string &name)
{
	if (w.dead) return;
	std::cout << "{\"k\":" << js(name) << ",\"p\":\"\",\"f\":[],\"o\":[],\"reg\":[],\"cur\":[],\"st\":[],\"x\":\"\"}\n";
}

int main(int argc, char **argv)
{
	std::ios::sync_with_stdio(false);
	std::string line;
	while (std::getline(std::cin, line)) {
		strs t;
		std::stringstream ss(line);
		std::string f;
		// tab separated; a trailing empty field is kept
		std::size_t pos = 0;
		while (true) {
			auto e = line.find('\t', pos);
			t.push_back(unesc(line.substr(pos, e == std::string::npos ? e : e - pos)));
			if (e == std::string::npos) break;
			pos = e + 1;
		}
		if (t[0] == "reset") {
			reset(t);
		} else if (t[0] == "w" || t[0] == "c") {
			step(t[0], t.at(1), strs(t.begin() + 2, t.end()));
		} else if (t[0] == "t") {
			step("t", "", {t.at(1)});
		} else if (t[0] == "ballast") {
			// changes the addresses of everything that is created from now on
			w.ballast.push_back(std::shared_ptr<void>(operator new(16 * std::stoi(t.at(1))), [](void *p) { operator delete(p); }));
		} else if (t[0] == "drain") {
			drain();
			marker("drained");
		} else if (t[0] == "kick") {
			if (w.dead) continue;
			step("c", "kicker", {"unfreeze"});
			strs ids;
			for (auto &wk : w.reg->get_workers()) ids.push_back(wk->identity);
			for (auto &id : ids) {
				strs m = {"eval", "kick" + std::to_string(++w.kicks)};
				for (auto &h : w.kick_headers[id]) m.push_back(h);
				m.push_back("");
				m.push_back("kickload");
				step("c", "kicker", m);
			}
			drain();
			marker("end");
		}
	}
	return 0;
}
