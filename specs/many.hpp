// tens of thousands of registrations in one callback
#pragma once
#include "vc.hpp"
#include <nytl/recursiveCallback.hpp>
#include <nytl/callback.hpp>
#include <vector>

namespace many {
template<typename CB> void history(int n) {
	CB cb;
	int keptRuns = 0, runs = 0; long long lastRun = -1, step = vc::pick(3, "pickstep") + 1, keep = vc::pick(50, "pickkeep") + 1;
	auto kept = cb.add([&](int){ ++keptRuns; });
	auto keptID = kept.id();
	std::vector<std::pair<nytl::Connection, long long>> others;
	bool fresh = true, stays = true, oldGone = true, ordered = true;
	auto last = keptID.get();
	for(long long i = 0; i < n; ++i) {
		auto c = cb.add([&, i](int){ ++runs; ordered &= i > lastRun; lastRun = i; });
		fresh &= c.id().get() > last; last = c.id().get();
		if(i % (n / keep) == 0 && others.size() < 64) { others.emplace_back(c, i); continue; }
		auto id = c.id();
		if(i % step == 0) c.disconnect(); else stays &= cb.disconnect(id);
		if(i % 97 == 0) oldGone &= !cb.disconnect(id);
	}
	ENSURE(fresh, "identifiers are not used again and ascend, however many handlers were added");
	ENSURE(stays, "a registered handler can be disconnected by its identifier");
	ENSURE(oldGone, "the identifier of a removed handler removes nothing");
	cb.call(1);
	ENSURE(keptRuns == 1, "handlers not disconnected stay registered");
	ENSURE(runs == (int) others.size() && ordered, "the remaining handlers run once each in registration order");
	for(auto& o : others) o.first.disconnect();
	cb.call(2);
	ENSURE(keptRuns == 2 && runs == (int) others.size(), "disconnected handlers do not run, the other one does");
	ENSURE(cb.disconnect(keptID), "the first handler is still registered");
	ENSURE(!cb.disconnect(keptID), "and removed once");
}
}
