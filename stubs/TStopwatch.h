// Stand-in for ROOT's clock: any time may have passed.
#ifndef SX_TSTOPWATCH
#define SX_TSTOPWATCH
class TStopwatch { public: void Start(bool = true) {} void Stop() {} void Reset() {} double RealTime() { return 0; } double CpuTime() { return 0; } };
#endif
