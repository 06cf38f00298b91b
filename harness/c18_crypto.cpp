// OpenSSL wrappers: hash, HMAC, cipher
#include <pbt.h>
#include <memory>
#include <cybozu/crypto.hpp>
#include <openssl/evp.h>
#include <openssl/hmac.h>
using pbt::G; using pbt::show;
typedef cybozu::crypto::Hash Hash; typedef cybozu::crypto::Hmac Hmac; typedef cybozu::crypto::Cipher Cipher;
static const EVP_MD *md(int i) { switch (i) { case 0: return EVP_sha1(); case 1: return EVP_sha224(); case 2: return EVP_sha256(); case 3: return EVP_sha384(); default: return EVP_sha512(); } }
static const Hash::Name names[] = { Hash::N_SHA1, Hash::N_SHA224, Hash::N_SHA256, Hash::N_SHA384, Hash::N_SHA512 };
static const char *strs[] = { "sha1", "sha224", "sha256", "sha384", "sha512" };
static std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof(b), "%02x", c); o += b; } return o; }
static std::string ref(int i, const std::string& m)
{
	unsigned char out[64]; unsigned int n = 0;
	EVP_Digest(m.data(), m.size(), out, &n, md(i), 0);
	return std::string((char*)out, n);
}
PROP(hash)
{
	int i = (int)g.below(5);
	Hash h(names[i]);
	REQUIRE_EQ(Hash::getSize(names[i]), ref(i, "").size());
	REQUIRE_STREQ(Hash::getName(names[i]), strs[i]);
	REQUIRE(Hash::getName(std::string(strs[i])) == names[i]);
	for (int round = 1 + (int)g.below(3); round > 0; round--) {
		std::string m = g.blob(g.boolean() ? g.below(200) : g.size(4000)), want = ref(i, m);
		g.note() << strs[i] << " of " << show(m, 50);
		g.nontrivial(m.size() > 1);
		if (g.chance(1, 4)) { h.update("garbage"); h.reset(); }
		size_t pos = 0;
		while (pos < m.size() && g.chance(3, 4)) { size_t n = g.below(m.size() - pos + 1); if (g.boolean()) h.update(m.substr(pos, n)); else h.update(m.data() + pos, n); pos += n; }
		std::string l = m.substr(pos), d;
		if (g.chance(1, 3)) { // a copy goes on on its own
			Hash c(h), e(names[g.below(5)]);
			if (g.boolean()) e.update("garbage");
			e = h;
			if (g.boolean()) e = *&e;
			c.update("something else");
			c.digest("");
			REQUIRE_STREQ(hex(e.digest(l)), hex(want));
			REQUIRE_STREQ(hex(e.digest(m)), hex(want));
			g.label("copied");
		}
		switch (g.below(3)) {
		case 0: d = l.empty() ? h.digest() : h.digest(l); break;
		case 1: d = h.digest(l.data(), l.size()); break;
		default: { std::string o(want.size() + 4, '#'); h.digest(&o[0], l.data(), l.size()); REQUIRE_STREQ(o.substr(want.size()), "####"); d = o.substr(0, want.size()); } break;
		}
		REQUIRE_STREQ(hex(d), hex(want));
		REQUIRE_STREQ(hex(Hash::digest(names[i], m)), hex(want));
		REQUIRE_STREQ(hex(Hash::digest(names[i], m.data(), m.size())), hex(want));
		std::string o(want.size() + 4, '#');
		REQUIRE_EQ(Hash::digest(&o[0], names[i], m.data(), m.size()), want.size());
		REQUIRE_STREQ(hex(o), hex(want + "####"));
	}
	std::string bad = g.text(g.below(8), "sha12560384S ");
	if (g.boolean()) { // near misses of the names
		bad = strs[g.below(5)];
		switch (g.below(5)) {
		case 0: bad += g.pick(std::vector<char>{'0', ' ', 'x', '\0', '-', '4'}); break;
		case 1: bad.pop_back(); break;
		case 2: bad.insert(g.below(bad.size() + 1), 1, "- s\t0"[g.below(5)]); break;
		case 3: bad[g.below(3)] ^= 0x20; break;
		default: bad[g.below(bad.size())] = (char)g.below(256); break;
		}
	}
	bool known = false;
	for (auto s : strs) if (bad == s) known = true;
	if (!known) REQUIRE_THROWS(Hash::getName(bad));
}
PROP(hmac)
{
	int i = (int)g.below(5);
	Hmac h(names[i]);
	for (int round = 1 + (int)g.below(2); round > 0; round--) {
		std::string k = g.blob(g.boolean() ? g.below(200) : g.size(1000)), m = g.blob(g.boolean() ? g.below(200) : g.size(3000));
		g.note() << strs[i] << " key " << show(k, 40) << " message " << show(m, 40);
		g.nontrivial(m.size() > 1);
		unsigned char out[64]; unsigned int n = 0;
		HMAC(md(i), k.data(), (int)k.size(), (const unsigned char*)m.data(), m.size(), out, &n);
		REQUIRE_STREQ(hex(h.eval(k, m)), hex(std::string((char*)out, n)));
	}
}
PROP(cipher)
{
	static const Cipher::Name cn[] = { Cipher::N_AES128_CBC, Cipher::N_AES192_CBC, Cipher::N_AES256_CBC, Cipher::N_AES128_ECB, Cipher::N_AES192_ECB, Cipher::N_AES256_ECB };
	const EVP_CIPHER *ev[] = { EVP_aes_128_cbc(), EVP_aes_192_cbc(), EVP_aes_256_cbc(), EVP_aes_128_ecb(), EVP_aes_192_ecb(), EVP_aes_256_ecb() };
	int i = (int)g.below(6);
	size_t kl = 16 + 8 * (i % 3);
	REQUIRE_EQ(Cipher::getSize(cn[i]), kl * 8);
	Cipher c(cn[i]), d(cn[i]);
	for (int round = 1 + (int)g.below(2); round > 0; round--) {
		std::string key = g.blob(kl), iv = g.blob(16), m = g.blob(16 * g.below(g.boolean() ? 6 : 60));
		g.note() << "cipher " << i << " key " << show(key) << " iv " << show(iv) << " message " << show(m, 50);
		g.nontrivial(m.size() > 1);
		std::string want(m.size() + 32, 0);
		{
			EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
			EVP_EncryptInit_ex(x, ev[i], 0, (const unsigned char*)key.data(), (const unsigned char*)iv.data());
			EVP_CIPHER_CTX_set_padding(x, 0);
			int n = 0, f = 0;
			EVP_EncryptUpdate(x, (unsigned char*)&want[0], &n, (const unsigned char*)m.data(), (int)m.size());
			EVP_EncryptFinal_ex(x, (unsigned char*)&want[n], &f);
			EVP_CIPHER_CTX_free(x);
			want.resize(n + f);
		}
		for (int dec = 0; dec < 2; dec++) {
			Cipher& t = dec ? d : c;
			if (g.chance(1, 4)) { // left in the middle of another message
				t.setup(g.boolean() ? Cipher::Encoding : Cipher::Decoding, g.blob(kl), iv);
				char o[64]; std::string junk = g.blob(g.below(20)); t.update(o, junk.data(), (int)junk.size());
			}
			t.setup(dec ? Cipher::Decoding : Cipher::Encoding, key, iv);
			const std::string& in = dec ? want : m;
			std::string out;
			size_t pos = 0;
			std::unique_ptr<Cipher> copy;
			while (pos < in.size()) {
				if (!copy && g.chance(1, 8)) { // a copy goes on on its own
					if (g.boolean()) copy.reset(new Cipher(t)); else { copy.reset(new Cipher(cn[g.below(6)])); *copy = t; }
					std::vector<char> o(in.size() - pos + 32);
					int r = copy->update(o.data(), in.data() + pos, (int)(in.size() - pos));
					REQUIRE(r >= 0);
					REQUIRE_STREQ(hex(out + std::string(o.data(), r)), hex(dec ? m : want));
					g.label("cipher copied");
				}
				size_t n = g.boolean() ? in.size() - pos : g.below(std::min<size_t>(in.size() - pos, 40) + 1);
				std::vector<char> o(n + 16 + 1);
				int r = t.update(o.data(), in.data() + pos, (int)n);
				REQUIRE(r >= 0 && r <= (int)n + 16);
				out.append(o.data(), r);
				pos += n;
			}
			if (g.boolean()) { char o[32]; REQUIRE_EQ(t.finalize(o), 0); }
			REQUIRE_STREQ(hex(out), hex(dec ? m : want));
		}
		// not a whole number of blocks: finalize reports it
		std::string part = g.blob(1 + g.below(15));
		c.setup(Cipher::Encoding, key, iv);
		char o[64];
		REQUIRE_EQ(c.update(o, part.data(), (int)part.size()), 0);
		REQUIRE_EQ(c.finalize(o), -1);
	}
	size_t bad = g.below(40);
	if (bad != kl) REQUIRE_THROWS(c.setup(Cipher::Encoding, g.blob(bad), g.blob(16)));
}
