// For every capability set and every requirement set (tab separated, percent-escaped lines "cap hw h.." / "req h..") asks the
// real broker, whose only worker has these capabilities, to evaluate a job with these requirements.
// Prints one row of digits per capability set: 1 accepted, 0 rejected, 2 anything else; a job that was accepted while the
// worker was idle must have been sent to it and vice versa (3 otherwise).
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <yaml-cpp/yaml.h>

#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"

using strs = std::vector<std::string>;

static std::string unesc(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}

int main()
{
	std::vector<strs> caps, reqs;
	std::string line;
	while (std::getline(std::cin, line)) {
		strs t;
		std::size_t pos = 0;
		while (true) {
			auto e = line.find('\t', pos);
			t.push_back(unesc(line.substr(pos, e == std::string::npos ? e : e - pos)));
			if (e == std::string::npos) break;
			pos = e + 1;
		}
		(t[0] == "cap" ? caps : reqs).emplace_back(t.begin() + 1, t.end());
	}
	auto cfg = std::make_shared<const broker_config>(YAML::Load("{}"));
	auto logger = helpers::create_null_logger();
	for (std::size_t c = 0; c < caps.size(); ++c) {
		auto reg = std::make_shared<worker_registry>();
		std::shared_ptr<queue_manager_interface> q;
		if (c % 2) q = std::make_shared<multi_queue_manager>(); else q = std::make_shared<single_queue_manager<>>();
		broker_handler h(cfg, reg, q, logger);
		strs init = {"init"};
		init.insert(init.end(), caps[c].begin(), caps[c].end());
		h.on_request(message_container(broker_connect::KEY_WORKERS, "w", init), [](const message_container &) {});
		std::string row;
		for (auto &r : reqs) {
			strs eval = {"eval", "j"};
			eval.insert(eval.end(), r.begin(), r.end());
			eval.push_back("");
			eval.push_back("x");
			int accepted = 0, rejected = 0, sent = 0;
			h.on_request(message_container(broker_connect::KEY_CLIENTS, "c", eval), [&](const message_container &m) {
				if (m.key == broker_connect::KEY_WORKERS) ++sent;
				if (m.key == broker_connect::KEY_CLIENTS && !m.data.empty()) {
					accepted += m.data[0] == "accept";
					rejected += m.data[0] == "reject";
				}
			});
			row += accepted + rejected != 1 ? '2' : sent != accepted ? '3' : accepted ? '1' : '0';
			if (sent) // the worker is idle again
				h.on_request(message_container(broker_connect::KEY_WORKERS, "w", {"done", "j", "OK"}), [](const message_container &) {});
		}
		std::cout << row << "\n";
	}
}
