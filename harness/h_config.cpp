// Loads YAML documents (one per line, percent-escaped) with the real broker_config and prints every setting.
#include <cstring>
#include <iostream>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <yaml-cpp/yaml.h>

#include "config/broker_config.h"

static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}

int main()
{
	std::string line;
	while (std::getline(std::cin, line)) {
		YAML::Node n = YAML::Load(unesc(line));
		std::vector<std::string> out;
		// memory with a known, unlikely content: settings that are left uninitialized show up
		void *mem = ::operator new(sizeof(broker_config));
		memset(mem, 0xa5, sizeof(broker_config));
		broker_config *c = nullptr;
		try {
			c = new (mem) broker_config(n);
			auto &l = c->get_log_config();
			auto &f = c->get_notifier_config();
			auto path = l.log_path;
			std::string file = path.empty() ? l.log_basename : (fs::path(path) / l.log_basename).string();
			out = {c->get_queue_manager(), c->get_client_address(), std::to_string(c->get_client_port()), c->get_worker_address(),
				std::to_string(c->get_worker_port()), std::to_string(c->get_max_worker_liveness()),
				std::to_string(c->get_max_request_failures()), std::to_string(c->get_worker_ping_interval().count()), c->get_monitor_address(),
				std::to_string(c->get_monitor_port()), f.address, std::to_string(f.port), f.username, f.password, file, l.log_level,
				std::to_string(l.log_file_size), std::to_string(l.log_files_count)};
		} catch (config_error &e) {
			out = {"error"};
		} catch (std::exception &e) {
			out = {"exception"};
		}
		if (c) c->~broker_config();
		::operator delete(mem);
		for (auto &x : out) std::cout << x << "\t";
		std::cout << std::endl;
	}
}
