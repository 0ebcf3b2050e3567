// Force-included into every translation unit: a failed internal contract check of the library (which by default prints,
// raises SIGTRAP and aborts) becomes a failed named obligation.
#pragma once
extern "C" [[noreturn]] void vf_contract_fail(const char*);
#define SPARROW_CONTRACTS_USE_CFORMAT 1
#define SPARROW_CONTRACTS_ON_FAILURE(expr__, message__) ::vf_contract_fail(#expr__)
