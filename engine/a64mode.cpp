// Marks a simulator binary whose code under test was compiled for AArch64.
extern "C" { extern const int sim_a64_mode; const int sim_a64_mode = 1; }
