// provided by fake_intrin.h
