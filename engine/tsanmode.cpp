// Marks a simulator binary whose code under test is instrumented for race detection.
extern "C" { extern const int sim_tsan_mode; const int sim_tsan_mode = 1; }
