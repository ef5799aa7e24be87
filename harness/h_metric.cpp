// Metrics updated from many threads: nothing is lost or counted twice.
#include "pbt.h"
#include "sim.h"

#include "mg/test/MetricMovingAverage.h"
#include "mg/test/MetricSpeed.h"

#include <deque>
#include <thread>
#include <vector>

using namespace pbt;
using namespace mg::tst;

PBT_TEST(tst_metric, MODE_FORK, 10)
{
	uint32_t buckets = 1 + (uint32_t)g.Small(5);
	uint32_t threads = 1 + (uint32_t)g.Below(3);
	uint32_t rounds = 1 + (uint32_t)g.Small(5);
	MetricMovingAverage avg;
	MetricSpeed speed;
	if (g.Bool())
	{
		avg.Reset(3);
		speed.Reset(2);
		avg.Add(100);
		speed.Add();
		avg.GoToNextBucket();
		speed.GoToNextBucket();
		avg.Add(7);
		speed.Add();
	}
	avg.Reset(buckets);
	speed.Reset(buckets);
	PBT_CHECK_F(avg.Get() == 0 && speed.Get() == 0, "tst-metric-reset",
		"not empty after a reset: %f, %llu", avg.Get(), (unsigned long long)speed.Get());

	// Exact part: the additions are done between the rotations.
	struct Bucket
	{
		uint64_t mySum = 0;
		uint64_t myCount = 0;
	};
	std::deque<Bucket> model;
	for (uint32_t i = 0; i < rounds; ++i)
	{
		Bucket b;
		std::vector<std::vector<uint64_t>> plan(threads);
		for (auto& p : plan)
		{
			uint64_t n = g.Small(5);
			for (uint64_t j = 0; j < n; ++j)
			{
				p.push_back(g.Bool() ? g.Below(10) : g.Below(1ull << 40));
				b.mySum += p.back();
				++b.myCount;
			}
		}
		std::vector<std::thread> ts;
		for (auto& p : plan)
		{
			ts.emplace_back([&avg, &speed, &p]() {
				for (uint64_t v : p)
				{
					avg.Add(v);
					speed.Add();
				}
			});
		}
		for (auto& t : ts)
			t.join();
		avg.GoToNextBucket();
		speed.GoToNextBucket();
		model.push_back(b);
		if (model.size() > buckets)
			model.pop_front();
		uint64_t sum = 0;
		uint64_t count = 0;
		for (const Bucket& m : model)
		{
			sum += m.mySum;
			count += m.myCount;
		}
		double want = count == 0 ? 0 : (double)sum / (double)count;
		double got = avg.Get();
		double diff = got - want;
		if (diff < 0)
			diff = -diff;
		if (diff > want * 1e-9)
			Fail("tst-metric-avg", "average is %f instead of %f over %zu buckets", got, want,
				model.size());
		if (speed.Get() != count)
			Fail("tst-metric-speed", "speed is %llu instead of %llu over %zu buckets",
				(unsigned long long)speed.Get(), (unsigned long long)count, model.size());
	}

	// Rotations during the additions: all is counted in the end, once.
	avg.Reset(64);
	speed.Reset(64);
	uint32_t perThread = (uint32_t)g.Below(6);
	uint64_t value = 1 + g.Below(1000);
	std::vector<std::thread> ts;
	for (uint32_t i = 0; i < threads; ++i)
	{
		ts.emplace_back([&]() {
			for (uint32_t j = 0; j < perThread; ++j)
			{
				avg.Add(value);
				speed.Add();
			}
		});
	}
	uint32_t rotations = (uint32_t)g.Below(6);
	for (uint32_t i = 0; i < rotations; ++i)
	{
		avg.GoToNextBucket();
		speed.GoToNextBucket();
	}
	for (auto& t : ts)
		t.join();
	avg.GoToNextBucket();
	speed.GoToNextBucket();
	uint64_t total = (uint64_t)threads * perThread;
	double want = total == 0 ? 0 : (double)value;
	double diff = avg.Get() - want;
	if (diff < 0)
		diff = -diff;
	if (diff > want * 1e-9)
		Fail("tst-metric-avg", "average is %f instead of %f", avg.Get(), want);
	if (speed.Get() != total)
		Fail("tst-metric-speed", "speed is %llu instead of %llu",
			(unsigned long long)speed.Get(), (unsigned long long)total);
	HashMix(total * 100 + rotations);
	HashMix(value);
	if (threads > 1 && sim::Preemptions() > 0)
		NonTrivial();
	Describe("%u buckets, %u threads, %u rounds, %u rotations", buckets, threads, rounds,
		rotations);
	
}
