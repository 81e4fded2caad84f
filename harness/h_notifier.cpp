// Drives the real status_notifier_handler.  Waiting is replaced by advancing a virtual clock (the skipped
// milliseconds are kept in the file named by SKIPPED_FILE, so that the HTTP server can tell the time).
//   config ADDRESS PORT USER PASSWORD / notify FRAME...   -> prints "done" after each notification
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

#include "handlers/status_notifier_handler.h"
#include "helpers/logger.h"
#include "notifier/reactor_status_notifier.h"

static long skipped_us = 0;

static void skip(long us)
{
	skipped_us += us;
	static int fd = open(getenv("SKIPPED_FILE"), O_WRONLY | O_CREAT, 0600);
	char buf[32];
	snprintf(buf, sizeof buf, "%020ld", skipped_us / 1000);
	if (pwrite(fd, buf, 20, 0) < 0) abort();
}

extern "C" int nanosleep(const struct timespec *t, struct timespec *)
{
	skip(t->tv_sec * 1000000L + t->tv_nsec / 1000);
	return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *)
{
	if (flags == 0) skip(t->tv_sec * 1000000L + t->tv_nsec / 1000);
	return 0;
}
extern "C" int usleep(useconds_t us)
{
	skip(us);
	return 0;
}
extern "C" unsigned sleep(unsigned s)
{
	skip(s * 1000000L);
	return 0;
}

static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}

int main()
{
	std::unique_ptr<status_notifier_handler> h;
	std::string line;
	curl_global_init(CURL_GLOBAL_DEFAULT);
	while (std::getline(std::cin, line)) {
		std::vector<std::string> t;
		std::size_t pos = 0;
		while (true) {
			auto e = line.find('\t', pos);
			t.push_back(unesc(line.substr(pos, e == std::string::npos ? e : e - pos)));
			if (e == std::string::npos) break;
			pos = e + 1;
		}
		if (t[0] == "config") {
			notifier_config c;
			c.address = t[1];
			c.port = std::stoi(t[2]);
			c.username = t[3];
			c.password = t[4];
			h = std::make_unique<status_notifier_handler>(c, helpers::create_null_logger());
			std::cout << "ready" << std::endl;
		} else {
			// the messages are produced by the broker's own notifier front
			message_container got;
			reactor_status_notifier front([&got](const message_container &m) { got = m; }, "status_notifier");
			if (t[0] == "error") front.error(t[1]);
			if (t[0] == "rejected") front.rejected_job(t[1], t[2]);
			if (t[0] == "failed") front.job_failed(t[1], t[2]);
			if (t[0] == "ok") front.job_done(t[1]);
			if (t[0] == "raw") got = message_container("status_notifier", "", std::vector<std::string>(t.begin() + 1, t.end()));
			h->on_request(got, [](const message_container &) { std::cout << "response" << std::endl; });
			std::cout << "done" << std::endl;
		}
	}
}
