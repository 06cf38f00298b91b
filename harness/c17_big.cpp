// messages of more than 2^32 bits, or with -DHUGE_MESSAGE of more than 2^32 bytes
#define CYBOZU_DONT_USE_OPENSSL
#include <pbt.h>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <openssl/evp.h>
#include <thread>
using pbt::G;
template<class H> static void feed(H& h, const std::string& chunk, size_t n) { for (size_t i = 0; i < n; i++) h.update(chunk.data(), chunk.size()); }
PROP(long_message)
{
	std::string chunk = g.blob(1 << 20);
	#ifdef HUGE_MESSAGE
	size_t n = (4096ull << 20) / chunk.size() + g.below(2);
#else
	size_t n = (512ull << 20) / chunk.size() + g.below(2);
#endif
	std::string tail = g.blob(g.below(200));
	g.note() << n << " MiB and " << tail.size() << " bytes";
	g.nontrivial();
	const EVP_MD *mds[3] = { EVP_sha1(), EVP_sha256(), EVP_sha512() };
	bool ok[3];
	auto one = [&](int i) {
		EVP_MD_CTX *c = EVP_MD_CTX_new();
		EVP_DigestInit_ex(c, mds[i], 0);
		for (size_t k = 0; k < n; k++) EVP_DigestUpdate(c, chunk.data(), chunk.size());
		EVP_DigestUpdate(c, tail.data(), tail.size());
		unsigned char out[64]; unsigned int len;
		EVP_DigestFinal_ex(c, out, &len);
		EVP_MD_CTX_free(c);
		std::string d;
		if (i == 0) { cybozu::Sha1 h; feed(h, chunk, n); d = h.digest(tail); }
		if (i == 1) { cybozu::Sha256 h; feed(h, chunk, n); d = h.digest(tail); }
		if (i == 2) { cybozu::Sha512 h; feed(h, chunk, n); d = h.digest(tail); }
		ok[i] = d == std::string((char*)out, len);
	};
	std::thread t0(one, 0), t1(one, 1), t2(one, 2);
	t0.join(); t1.join(); t2.join();
	for (int i = 0; i < 3; i++) REQUIRE_MSG(ok[i], "digest " << i << " of a message of more than 2^32 bits");
}
