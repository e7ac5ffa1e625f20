// The cases of drv_inst, four at a time, each in a thread of its own.
#define THREADS
#include "drv_inst.cpp"
#include <atomic>
#include <thread>
int main()
{
    std::vector<std::string> lines;
    for (std::string line; std::getline(std::cin, line);)
        lines.push_back(line);
    for (size_t at = 0; at < lines.size(); at += 4)
    {
        const size_t             n = std::min<size_t>(4, lines.size() - at);
        std::vector<std::string> out(n);
        std::vector<std::thread> ts;
        std::atomic<size_t>      ready{ 0 };
        for (size_t k = 0; k < n; ++k)
            ts.emplace_back([&, k] {
                ready.fetch_add(1, std::memory_order_relaxed); // no order between the threads
                while (ready.load(std::memory_order_relaxed) < n)
                    std::this_thread::yield();
                reset_case();
                out[k] = run_line(lines[at + k]);
                reset_case();
            });
        for (auto& t : ts)
            t.join();
        for (auto& o : out)
            fwrite(o.data(), 1, o.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
