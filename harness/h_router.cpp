// Drives a real router_socket_wrapper over real ZeroMQ transports with scripted peers.
#include <unistd.h>
//   run ADDR bind|connect / peer P [IDENTITY] / psend P FRAME... / bsend P|!IDENTITY FRAME... / bempty P / settle / close P / end
#include <chrono>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <zmq.hpp>

#include "reactor/router_socket_wrapper.h"

using strs = std::vector<std::string>;
using clk = std::chrono::steady_clock;

static std::string js(const std::string &s)
{
	std::string r = "\"";
	char buf[8];
	if (s.size() > 200) {
		// long frames are compared by length and content digest
		unsigned long h = 1469598103934665603ul;
		for (unsigned char c : s) h = (h ^ c) * 1099511628211ul;
		return "\"#" + std::to_string(s.size()) + ":" + std::to_string(h) + "\"";
	}
	for (unsigned char c : s) {
		if (c == '"' || c == '\\' || c == '%' || c < 0x20 || c >= 0x7f) {
			snprintf(buf, sizeof buf, "%%%02x", c);
			r += buf;
		} else {
			r += static_cast<char>(c);
		}
	}
	return r + "\"";
}
static std::string fr(const strs &f)
{
	std::string r = "[";
	for (std::size_t i = 0; i < f.size(); ++i) r += (i ? "," : "") + js(f[i]);
	return r + "]";
}
static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else if (s[i] == '^' && i + 1 < s.size()) { // ^N^ : N times x
			auto e = s.find('^', i + 1);
			r += std::string(std::stoi(s.substr(i + 1, e - i - 1)), 'x');
			i = e;
		} else {
			r += s[i];
		}
	}
	return r;
}

struct peer_t {
	void *s = nullptr;
	std::string id;
	bool known = false;
	long to_it = 0;
};

int main()
{
	std::shared_ptr<zmq::context_t> ctx;
	std::shared_ptr<router_socket_wrapper> w;
	std::map<std::string, peer_t> peers;
	std::map<std::string, std::string> by_id;
	std::string addr, line;
	bool bound = true, first = true, stuck = false;
	strs ev;
	long to_us = 0;

	auto log = [&](const std::string &k, const std::string &who, const strs &f) {
		ev.push_back("{\"k\":\"" + k + "\",\"who\":" + js(who) + ",\"f\":" + fr(f) + "}");
	};
	auto recv_wrapper = [&](message_container &m) {
		zmq_pollitem_t it = w->get_pollitem();
		it.events = ZMQ_POLLIN;
		if (zmq_poll(&it, 1, 0) <= 0) return false;
		return w->receive_message(m);
	};
	auto recv_peer = [&](peer_t &p, strs &f) {
		f.clear();
		zmq_msg_t z;
		zmq_msg_init(&z);
		if (zmq_msg_recv(&z, p.s, ZMQ_DONTWAIT) < 0) return false;
		while (true) {
			f.emplace_back((char *) zmq_msg_data(&z), zmq_msg_size(&z));
			if (!zmq_msg_more(&z)) break;
			zmq_msg_recv(&z, p.s, 0);
		}
		zmq_msg_close(&z);
		return true;
	};
	auto pump = [&]() {
		message_container m;
		while (recv_wrapper(m)) {
			log("brecv", m.identity, m.data);
			--to_us;
		}
		for (auto &p : peers) {
			strs f;
			while (p.second.s && recv_peer(p.second, f)) {
				log("precv", p.second.id, f);
				--p.second.to_it;
			}
		}
	};
	auto settle = [&]() {
		auto end = clk::now() + std::chrono::seconds(stuck ? 1 : 10);
		while (clk::now() < end) {
			pump();
			bool open = to_us > 0;
			for (auto &p : peers) open = open || (p.second.s && p.second.to_it > 0);
			if (!open) break;
			std::this_thread::sleep_for(std::chrono::microseconds(300));
		}
		std::this_thread::sleep_for(std::chrono::milliseconds(8));
		pump();
		if (to_us > 0) stuck = true;
		for (auto &p : peers) stuck = stuck || (p.second.s && p.second.to_it > 0);
		log("settled", "", {});
	};
	auto psend = [&](peer_t &p, const strs &f) {
		for (std::size_t i = 0; i < f.size(); ++i) zmq_send(p.s, f[i].data(), f[i].size(), i + 1 < f.size() ? ZMQ_SNDMORE : 0);
	};

	std::cout << "[";
	while (std::getline(std::cin, line)) {
		strs t;
		std::size_t pos = 0;
		while (true) {
			auto e = line.find('\t', pos);
			t.push_back(unesc(line.substr(pos, e == std::string::npos ? e : e - pos)));
			if (e == std::string::npos) break;
			pos = e + 1;
		}
		if (t[0] == "run") {
			ctx = std::make_shared<zmq::context_t>(1);
			addr = t[1];
			bound = t[2] == "bind";
			ev.clear();
			peers.clear();
			stuck = false;
			to_us = 0;
			if (addr == "tcp") {
				// find a free port
				for (int k = 0; k < 200; ++k) {
					void *s = zmq_socket((void *) *ctx, ZMQ_PAIR);
					std::string a = "tcp://127.0.0.1:" + std::to_string(20000 + (getpid() * 37 + k * 101 + rand()) % 30000);
					bool ok = zmq_bind(s, a.c_str()) == 0;
					int zero = 0;
					zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof zero);
					zmq_close(s);
					if (ok) {
						addr = a;
						std::this_thread::sleep_for(std::chrono::milliseconds(30));
						break;
					}
				}
			}
			w = std::make_shared<router_socket_wrapper>(ctx, addr, bound);
			if (bound) {
				for (int k = 0; k < 100; ++k) {
					try {
						w->initialize();
						break;
					} catch (zmq::error_t &) {
						std::this_thread::sleep_for(std::chrono::milliseconds(30));
					}
				}
			}
		} else if (t[0] == "peer") {
			peer_t p;
			p.s = zmq_socket((void *) *ctx, ZMQ_DEALER);
			int zero = 0;
			zmq_setsockopt(p.s, ZMQ_LINGER, &zero, sizeof zero);
			zmq_setsockopt(p.s, ZMQ_SNDHWM, &zero, sizeof zero);
			zmq_setsockopt(p.s, ZMQ_RCVHWM, &zero, sizeof zero);
			if (t.size() > 2 && !t[2].empty()) zmq_setsockopt(p.s, ZMQ_IDENTITY, t[2].data(), t[2].size());
			if (bound) {
				zmq_connect(p.s, addr.c_str());
			} else {
				for (int k = 0; k < 100 && zmq_bind(p.s, addr.c_str()) != 0; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(30));
				w->initialize();
			}
			// the wrapper learns the identity from the first message
			psend(p, {"hello"});
			message_container m;
			auto end = clk::now() + std::chrono::seconds(10);
			bool ok = false;
			while (clk::now() < end && !(ok = recv_wrapper(m))) std::this_thread::sleep_for(std::chrono::microseconds(300));
			p.id = t.size() > 2 && !t[2].empty() ? t[2] : m.identity;
			log("up", p.id, {});
			log("psend", p.id, {"hello"});
			if (ok) log("brecv", m.identity, m.data);
			else log("settled", "", {});
			peers[t[1]] = p;
		} else if (t[0] == "psend") {
			strs f(t.begin() + 2, t.end());
			log("psend", peers[t[1]].id, f);
			++to_us;
			psend(peers[t[1]], f);
		} else if (t[0] == "bsend") {
			strs f(t.begin() + 2, t.end());
			std::string id = t[1][0] == '!' ? t[1].substr(1) : peers[t[1]].id;
			log("bsend", id, f);
			if (t[1][0] != '!' && !f.empty()) ++peers[t[1]].to_it;
			w->send_message(message_container("", id, f));
		} else if (t[0] == "settle") {
			settle();
		} else if (t[0] == "end") {
			settle();
			for (auto &p : peers) zmq_close(p.second.s);
			w.reset();
			ctx.reset();
			std::cout << (first ? "" : ",\n") << "{\"ev\":[";
			for (std::size_t i = 0; i < ev.size(); ++i) std::cout << (i ? "," : "") << ev[i];
			std::cout << "]}" << std::flush;
			first = false;
		}
	}
	std::cout << "]" << std::endl;
}
