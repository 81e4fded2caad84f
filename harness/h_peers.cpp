// STANDALONE: scripted ZeroMQ peers (clients, workers, monitor) of a broker process.
//   peer NAME ENDPOINT [IDENTITY]   a DEALER socket connected to the endpoint
//   monitor NAME ENDPOINT IDENTITY  a DEALER socket bound to the endpoint
//   send NAME FRAME...
//   alive NAME MS                   send a message without meaning every MS milliseconds (0: stop; prints "muted NAME T")
// Prints "recv NAME T FRAME..." (tab separated, %xx escaped, T: monotonic milliseconds).
#include <chrono>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include <zmq.h>

using strs = std::vector<std::string>;
static long now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static std::string esc(const std::string &s)
{
	std::string r;
	char b[8];
	for (unsigned char c : s)
		if (c == '%' || c < 0x20 || c >= 0x7f) {
			snprintf(b, sizeof b, "%%%02x", c);
			r += b;
		} else
			r += (char) c;
	return r;
}
static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size()) {
			r += (char) std::stoi(s.substr(i + 1, 2), nullptr, 16);
			i += 2;
		} else
			r += s[i];
	return r;
}
struct peer_t {
	void *s;
	long every = 0, last = 0;
};
static void send(peer_t &p, const strs &f)
{
	p.last = now();
	for (std::size_t i = 0; i < f.size(); ++i) zmq_send(p.s, f[i].data(), f[i].size(), i + 1 < f.size() ? ZMQ_SNDMORE : 0);
}
int main()
{
	void *ctx = zmq_ctx_new();
	std::map<std::string, peer_t> peers;
	std::string buf;
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	while (true) {
		std::vector<zmq_pollitem_t> it{{nullptr, 0, ZMQ_POLLIN, 0}};
		for (auto &p : peers) it.push_back({p.second.s, 0, ZMQ_POLLIN, 0});
		zmq_poll(it.data(), (int) it.size(), 20);
		for (auto &p : peers) {
			while (true) {
				zmq_msg_t z;
				zmq_msg_init(&z);
				if (zmq_msg_recv(&z, p.second.s, ZMQ_DONTWAIT) < 0) break;
				std::string l = "recv\t" + p.first + "\t" + std::to_string(now());
				while (true) {
					l += "\t" + esc(std::string((char *) zmq_msg_data(&z), zmq_msg_size(&z)));
					if (!zmq_msg_more(&z)) break;
					zmq_msg_recv(&z, p.second.s, 0);
				}
				zmq_msg_close(&z);
				puts(l.c_str());
			}
			if (p.second.every && now() - p.second.last >= p.second.every) send(p.second, {"keepalive"});
		}
		if (it[0].revents) {
			char b[65536];
			auto n = read(0, b, sizeof b);
			if (n <= 0) _exit(0);
			buf.append(b, n);
			std::size_t e;
			while ((e = buf.find('\n')) != std::string::npos) {
				strs t;
				std::size_t a = 0;
				std::string l = buf.substr(0, e);
				buf.erase(0, e + 1);
				while (true) {
					auto x = l.find('\t', a);
					t.push_back(unesc(l.substr(a, x == std::string::npos ? x : x - a)));
					if (x == std::string::npos) break;
					a = x + 1;
				}
				if (t[0] == "peer" || t[0] == "monitor") {
					peer_t p;
					int zero = 0;
					p.s = zmq_socket(ctx, ZMQ_DEALER);
					zmq_setsockopt(p.s, ZMQ_LINGER, &zero, sizeof zero);
					if (t.size() > 3) zmq_setsockopt(p.s, ZMQ_IDENTITY, t[3].data(), t[3].size());
					int rc = t[0] == "peer" ? zmq_connect(p.s, t[2].c_str()) : zmq_bind(p.s, t[2].c_str());
					if (rc != 0) { puts("failed"); _exit(3); }
					peers[t[1]] = p;
				} else if (t[0] == "send") {
					send(peers[t[1]], strs(t.begin() + 2, t.end()));
				} else if (t[0] == "alive") {
					auto &p = peers[t[1]];
					p.every = std::stol(t[2]);
					if (!p.every) printf("muted\t%s\t%ld\n", t[1].c_str(), p.last);
				}
			}
		}
	}
}
