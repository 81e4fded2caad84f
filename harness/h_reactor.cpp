// Runs the real reactor (src/reactor) with its real threads and sockets on scripted peers and handlers and records
// what everybody put and got.  One run per input script:
//   run NAME / socket S / handler H sync|async ORIGIN... / start / send S ID FRAME... / burst S N FRAME... /
//   hold H / release H / settle / idle MS / work MS / term / prestop
// A frame "r=DEST=TEXT" makes the receiving handlers respond, "s=MS" sleep, "n=H" restricts that to handler H.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <zmq.hpp>

#include "reactor/reactor.h"

using strs = std::vector<std::string>;
using clk = std::chrono::steady_clock;

static std::string js(const std::string &s)
{
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\' || c == '%' || c < 0x20 || c >= 0x7f) {
			snprintf(buf, sizeof buf, "%%%02x", c);
			r += buf;
		} else {
			r += static_cast<char>(c);
		}
	}
	return r + "\"";
}

static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}

struct run_t {
	std::mutex m;
	std::condition_variable cv;
	std::vector<std::string> ev;
	std::map<std::string, long> left; // receiver -> messages it still has to get
	std::map<std::string, strs> subs;
	std::map<std::string, bool> async;
	std::set<std::string> socks, held;
	std::map<std::string, long> num, permits;
	clk::time_point t0 = clk::now();
	clk::time_point last_timer;
	long max_gap = 0;

	long now()
	{
		return std::chrono::duration_cast<std::chrono::milliseconds>(clk::now() - t0).count();
	}
};
static run_t *R;

// a message is numbered per way in its identity: src#id
static std::string frames(const strs &f)
{
	std::string r = "[";
	for (std::size_t i = 0; i < f.size(); ++i) r += (i ? "," : "") + js(f[i]);
	return r + "]";
}

static std::string msg(const std::string &id, const strs &data)
{
	return "\"m\":{\"id\":" + js(id) + ",\"f\":" + frames(data) + "}";
}

// with the lock held
static void put(const std::string &src, const std::string &dest, const std::string &id, const strs &data)
{
	R->ev.push_back("{\"k\":\"put\",\"src\":" + js(src) + ",\"dest\":" + js(dest) + "," + msg(id, data) + "}");
	if (src != "ext" && R->socks.count(dest)) {
		R->left["peer"]++;
	} else {
		for (auto &h : R->subs)
			for (auto &o : h.second)
				if (o == dest) R->left[h.first]++;
	}
}

static std::string source(const std::string &identity)
{
	return identity.substr(0, identity.find('#'));
}

class pair_wrapper : public socket_wrapper_base
{
public:
	pair_wrapper(std::shared_ptr<zmq::context_t> context, const std::string &addr)
		: socket_wrapper_base(context, zmq::socket_type::pair, addr, false),
		  local_(*context, zmq::socket_type::pair), context_(context)
	{
		local_.setsockopt(ZMQ_LINGER, 0);
		local_.setsockopt(ZMQ_SNDHWM, 0);
		local_.setsockopt(ZMQ_RCVHWM, 0);
		local_.bind(addr_);
		socket_.close();
	}

	void initialize() override
	{
		socket_ = zmq::socket_t(*context_, zmq::socket_type::pair);
		socket_.setsockopt(ZMQ_LINGER, 0);
		socket_.setsockopt(ZMQ_SNDHWM, 0);
		socket_.setsockopt(ZMQ_RCVHWM, 0);
		socket_.connect(addr_);
		std::lock_guard<std::mutex> l(R->m);
		R->ev.push_back("{\"k\":\"init\",\"at\":" + std::to_string(R->now()) + "}");
	}

	bool send_message(const message_container &m) override
	{
		return send(socket_, m);
	}
	bool receive_message(message_container &m) override
	{
		return recv(socket_, m, 0);
	}
	bool send_local(const message_container &m)
	{
		return send(local_, m);
	}
	bool recv_local(message_container &m)
	{
		return recv(local_, m, ZMQ_NOBLOCK);
	}

private:
	zmq::socket_t local_;
	std::shared_ptr<zmq::context_t> context_;

	static bool send(zmq::socket_t &s, const message_container &m)
	{
		zmq_send((void *) s, m.identity.data(), m.identity.size(), m.data.empty() ? 0 : ZMQ_SNDMORE);
		for (auto it = m.data.begin(); it != m.data.end(); ++it)
			zmq_send((void *) s, it->data(), it->size(), std::next(it) != m.data.end() ? ZMQ_SNDMORE : 0);
		return true;
	}
	static bool recv(zmq::socket_t &s, message_container &m, int flags)
	{
		zmq_msg_t z;
		zmq_msg_init(&z);
		if (zmq_msg_recv(&z, (void *) s, flags) < 0) return false;
		m.identity = std::string((char *) zmq_msg_data(&z), zmq_msg_size(&z));
		m.data.clear();
		while (zmq_msg_more(&z)) {
			zmq_msg_recv(&z, (void *) s, 0);
			m.data.emplace_back((char *) zmq_msg_data(&z), zmq_msg_size(&z));
		}
		zmq_msg_close(&z);
		return true;
	}
};

class scripted : public handler_interface
{
public:
	std::string name;
	std::string key_in;

	scripted(const std::string &n) : name(n)
	{
	}

	void on_request(const message_container &m, const response_cb &respond) override
	{
		if (m.key == reactor::KEY_TIMER) {
			std::lock_guard<std::mutex> l(R->m);
			long at = R->now();
			R->ev.push_back("{\"k\":\"timer\",\"h\":" + js(name) + ",\"ms\":" +
				(m.data.size() == 1 ? m.data[0] : std::string("-1")) + ",\"at\":" + std::to_string(at) + "}");
			R->last_timer = clk::now();
			return;
		}
		strs data = m.data;
		{
			std::unique_lock<std::mutex> l(R->m);
			R->ev.push_back("{\"k\":\"got\",\"h\":" + js(name) + ",\"src\":" + js(source(m.identity)) + ",\"dest\":" + js(m.key) +
				"," + msg(m.identity, data) + "}");
			R->left[name]--;
			R->cv.notify_all();
			R->cv.wait(l, [this] { return R->held.count(name) == 0 || R->permits[name] > 0; });
			if (R->held.count(name)) R->permits[name]--;
			R->cv.notify_all();
		}
		bool me = true;
		for (auto &f : data) {
			if (f.compare(0, 2, "n=") == 0) me = name.size() >= f.size() - 2 && name.substr(name.size() - (f.size() - 2)) == f.substr(2);
			if (!me) continue;
			if (f.compare(0, 2, "s=") == 0) std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(f.substr(2))));
			if (f.compare(0, 2, "r=") == 0) {
				auto e = f.find('=', 2);
				std::string dest = f.substr(2, e - 2), text = f.substr(e + 1);
				std::string id;
				strs d = text == "~" ? strs{} : strs{text};
				{
					std::lock_guard<std::mutex> l(R->m);
					id = name + "#" + dest + "#" + std::to_string(++R->num[name + " " + dest]);
					put(name, dest, id, d);
				}
				respond(message_container(dest, id, d));
			}
		}
	}
};

static bool ends_at(std::thread &t, std::atomic<bool> &done, int secs)
{
	for (int i = 0; i < secs * 200 && !done.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(5));
	if (done.load()) {
		t.join();
		return true;
	}
	return false;
}

int main()
{
	std::string line;
	std::shared_ptr<zmq::context_t> ctx;
	std::shared_ptr<reactor> rx;
	std::map<std::string, std::shared_ptr<pair_wrapper>> socks;
	std::thread th;
	std::atomic<bool> done{false};
	std::string name;
	bool first = true, stuck = false;
	int limit = 20;

	auto drain = [&]() {
		for (auto &s : socks) {
			message_container m;
			while (s.second->recv_local(m)) {
				std::lock_guard<std::mutex> l(R->m);
				R->ev.push_back("{\"k\":\"out\",\"src\":" + js(source(m.identity)) + ",\"dest\":" + js(s.first) + "," + msg(m.identity, m.data) + "}");
				R->left["peer"]--;
			}
		}
	};
	auto settle = [&]() {
		auto end = clk::now() + std::chrono::seconds(stuck ? 1 : limit);
		while (clk::now() < end) {
			drain();
			bool open = false;
			{
				std::lock_guard<std::mutex> l(R->m);
				for (auto &x : R->left)
					if (x.second > 0 && !R->held.count(x.first)) open = true;
			}
			if (!open) break;
			std::this_thread::sleep_for(std::chrono::milliseconds(1));
		}
		std::this_thread::sleep_for(std::chrono::milliseconds(15)); // surplus deliveries would show up now
		drain();
		std::lock_guard<std::mutex> l(R->m);
		strs held;
		for (auto &h : R->held) held.push_back(h);
		for (auto &x : R->left)
			if (x.second > 0 && !R->held.count(x.first)) stuck = true;
		R->ev.push_back("{\"k\":\"settled\",\"held\":" + frames(held) + "}");
	};

	std::cout << "[";
	while (std::getline(std::cin, line)) {
		strs t;
		std::stringstream ss(line);
		std::string f;
		std::size_t pos = 0;
		while (true) {
			auto e = line.find('\t', pos);
			t.push_back(unesc(line.substr(pos, e == std::string::npos ? e : e - pos)));
			if (e == std::string::npos) break;
			pos = e + 1;
		}
		if (t[0] == "run") {
			R = new run_t();
			name = t[1];
			ctx = std::make_shared<zmq::context_t>(1);
			rx = std::make_shared<reactor>(ctx);
			socks.clear();
			done = false;
			stuck = false;
		} else if (t[0] == "socket") {
			socks[t[1]] = std::make_shared<pair_wrapper>(ctx, "inproc://h_reactor_" + t[1]);
			R->socks.insert(t[1]);
			rx->add_socket(t[1], socks[t[1]]);
		} else if (t[0] == "handler") {
			strs o(t.begin() + 3, t.end());
			R->async[t[1]] = t[2] == "async";
			strs subs;
			for (auto &x : o)
				if (x != reactor::KEY_TIMER) subs.push_back(x);
			R->subs[t[1]] = subs;
			auto h = std::make_shared<scripted>(t[1]);
			if (t[2] == "async") {
				rx->add_async_handler(o, h);
			} else {
				rx->add_handler(o, h);
			}
		} else if (t[0] == "start") {
			auto r = rx;
			th = std::thread([r, &done]() {
				r->start_loop();
				done = true;
			});
		} else if (t[0] == "send" || t[0] == "burst") {
			int n = t[0] == "burst" ? std::stoi(t[2]) : 1;
			strs data(t.begin() + (t[0] == "burst" ? 3 : 2), t.end());
			for (int i = 0; i < n; ++i) {
				std::string id;
				{
					std::lock_guard<std::mutex> l(R->m);
					id = "ext#" + t[1] + "#" + std::to_string(++R->num["ext " + t[1]]);
					put("ext", t[1], id, data);
				}
				socks[t[1]]->send_local(message_container("", id, data));
			}
		} else if (t[0] == "hold") {
			std::lock_guard<std::mutex> l(R->m);
			R->held.insert(t[1]);
		} else if (t[0] == "step") {
			// let a held handler process one message
			std::unique_lock<std::mutex> l(R->m);
			R->permits[t[1]]++;
			R->cv.notify_all();
			R->cv.wait_for(l, std::chrono::milliseconds(300), [&] { return R->permits[t[1]] <= 0; });
			R->permits[t[1]] = 0;
		} else if (t[0] == "release") {
			std::lock_guard<std::mutex> l(R->m);
			R->held.erase(t[1]);
			R->cv.notify_all();
		} else if (t[0] == "settle") {
			settle();
		} else if (t[0] == "sleep") {
			std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(t[1])));
		} else if (t[0] == "flood") {
			// keep one socket busy for the given time
			auto end = clk::now() + std::chrono::milliseconds(std::stoi(t[2]));
			strs data(t.begin() + 4, t.end());
			while (clk::now() < end) {
				std::string id;
				{
					std::lock_guard<std::mutex> l(R->m);
					id = "ext#" + t[1] + "#" + std::to_string(++R->num["ext " + t[1]]);
					put("ext", t[1], id, data);
				}
				socks[t[1]]->send_local(message_container("", id, data));
				std::this_thread::sleep_for(std::chrono::microseconds(std::stoi(t[3])));
			}
		} else if (t[0] == "idle") {
			// nothing happens: how long are the gaps between timer events?
			auto end = clk::now() + std::chrono::milliseconds(std::stoi(t[1]));
			clk::time_point seen = clk::now(), prev;
			{
				std::lock_guard<std::mutex> l(R->m);
				prev = R->last_timer;
			}
			long gap = 0;
			while (clk::now() < end) {
				std::this_thread::sleep_for(std::chrono::milliseconds(2));
				std::lock_guard<std::mutex> l(R->m);
				auto now = clk::now();
				if (R->last_timer != prev) {
					prev = R->last_timer;
					seen = now;
				}
				gap = std::max<long>(gap, std::chrono::duration_cast<std::chrono::milliseconds>(now - seen).count());
			}
			std::lock_guard<std::mutex> l(R->m);
			R->ev.push_back("{\"k\":\"idle\",\"gap\":" + std::to_string(gap) + ",\"allowed\":" + t[2] + "}");
		} else if (t[0] == "term") {
			{
				std::lock_guard<std::mutex> l(R->m);
				R->ev.push_back("{\"k\":\"term\"}");
			}
			rx->terminate();
		} else if (t[0] == "end") {
			{
				std::lock_guard<std::mutex> l(R->m);
				R->held.clear();
				R->cv.notify_all();
			}
			bool ok = ends_at(th, done, 20);
			{
				std::lock_guard<std::mutex> l(R->m);
				R->ev.push_back(std::string("{\"k\":\"ended\",\"ok\":") + (ok ? "true" : "false") + "}");
				std::cout << (first ? "" : ",\n") << "{\"name\":" << js(name) << ",\"sockets\":[";
				bool c = false;
				for (auto &s : R->socks) {
					std::cout << (c ? "," : "") << js(s);
					c = true;
				}
				std::cout << "],\"handlers\":[";
				c = false;
				for (auto &h : R->subs) {
					std::cout << (c ? "," : "") << "{\"name\":" << js(h.first) << ",\"async\":" << (R->async[h.first] ? "true" : "false")
							  << ",\"subs\":" << frames(h.second) << "}";
					c = true;
				}
				std::cout << "],\"ev\":[";
				for (std::size_t i = 0; i < R->ev.size(); ++i) std::cout << (i ? "," : "") << R->ev[i];
				std::cout << "]}";
			}
			first = false;
			std::cout.flush();
			if (!ok) {
				std::cout << "]" << std::endl;
				_exit(0); // the loop thread cannot be joined
			}
			rx.reset();
			socks.clear();
			ctx.reset();
		}
	}
	std::cout << "]" << std::endl;
	_exit(0);
}
