// Owns std::random_device: every "non deterministic" seed in the code under
// test becomes a function of the case being explored.
#include <random>
#include <cstdint>
#include <string>
namespace {
uint64_t g_state = 1, g_calls = 0;
uint32_t nextVal() {
  g_calls++;
  uint64_t z = (g_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (uint32_t)(z ^ (z >> 31));
}
} // namespace
namespace vh {
void seedRandomDevice(uint64_t s) {
  g_state = s;
  g_calls = 0;
}
uint64_t randomDeviceCalls() { return g_calls; }
} // namespace vh
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return nextVal(); }
random_device::result_type random_device::_M_getval_pretr1() { return nextVal(); }
} // namespace std
