// C01: SLIP codec against an independent RFC 1055 reference.
#include "src.h"
#include "common/slipdataprocessor.h"
#include <vector>

namespace {
typedef std::vector<unsigned char> Bytes;

Bytes toB(const QByteArray &a)
{
    return Bytes(a.begin(), a.end());
}
QByteArray toQ(const Bytes &b)
{
    return QByteArray(reinterpret_cast<const char *>(b.data()), int(b.size()));
}

Bytes refEncode(const Bytes &in)
{
    Bytes out;
    for (unsigned char c : in) {
        if (c == 0xC0) {
            out.push_back(0xDB);
            out.push_back(0xDC);
        } else if (c == 0xDB) {
            out.push_back(0xDB);
            out.push_back(0xDD);
        } else {
            out.push_back(c);
        }
    }
    out.push_back(0xC0);
    return out;
}

bool refDecode(const Bytes &in, Bytes &out)
{
    for (size_t i = 0; i < in.size(); i++) {
        if (in[i] == 0xDB) {
            if (i + 1 >= in.size())
                return true; // unfinished escape: nothing follows
            i++;
            if (in[i] == 0xDC)
                out.push_back(0xC0);
            else if (in[i] == 0xDD)
                out.push_back(0xDB);
            else
                return false;
        } else if (in[i] == 0xC0) {
            return true;
        } else {
            out.push_back(in[i]);
        }
    }
    return true;
}

void checkPayload(Ctx &c, const QByteArray &p)
{
    QByteArray enc = SlipDataProcessor::serializeData(p);
    QByteArray want = toQ(refEncode(toB(p)));
    if (enc != want)
        c.fail("encode", "encoding of " + hexs(p) + " is " + hexs(enc) + ", expected " + hexs(want));
    if (enc.indexOf(char(0xC0)) != enc.size() - 1)
        c.fail("encode-end", "END byte inside the encoding of " + hexs(p));
    QByteArray dec = SlipDataProcessor::deserializeData(enc);
    if (dec != p)
        c.fail("roundtrip", "decode(encode(x)) != x for " + hexs(p) + ": " + hexs(dec));
    QByteArray dec2 = SlipDataProcessor::deserializeData(enc.left(enc.size() - 1));
    if (dec2 != p)
        c.fail("roundtrip", "decode without END differs for " + hexs(p) + ": " + hexs(dec2));
    QByteArray dec3 = SlipDataProcessor::deserializeData(enc + "\xDB\x01tail");
    if (dec3 != p)
        c.fail("roundtrip", "bytes behind END change the decoded " + hexs(p) + ": " + hexs(dec3));
}

void checkFrame(Ctx &c, quint16 addr, const QByteArray &p)
{
    SlipDataProcessor::Frame f;
    f.socketAddress = addr;
    f.data = p;
    QByteArray raw = SlipDataProcessor::buildFrame(f);
    QByteArray want;
    want.append(char(addr >> 8)).append(char(addr & 0xff)).append(p);
    if (raw != want)
        c.fail("frame-build", QString("frame for address %1 payload ").arg(addr) + hexs(p) + " is " + hexs(raw));
    SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(raw);
    if (g.socketAddress != addr || g.data != p)
        c.fail("frame-parse", QString("frame for address %1 payload ").arg(addr) + hexs(p) + QString(" parses to %1 ").arg(g.socketAddress) + hexs(g.data));
    SlipDataProcessor::Frame h = SlipDataProcessor::parseFrame(SlipDataProcessor::deserializeData(SlipDataProcessor::serializeData(raw)));
    if (h.socketAddress != addr || h.data != p)
        c.fail("frame-slip", QString("address %1 payload ").arg(addr) + hexs(p) + " is damaged by SLIP and framing: " + hexs(h.data));
}

bool checkDecode(Ctx &c, const QByteArray &in)
{
    Bytes want;
    bool ok = refDecode(toB(in), want);
    QByteArray got = SlipDataProcessor::deserializeData(in);
    if (!ok) {
        if (!got.isNull())
            c.fail("decode-error", "invalid escape not reported for " + hexs(in) + ": " + hexs(got));
    } else {
        if (got != toQ(want))
            c.fail("decode", "decoding " + hexs(in) + " gives " + hexs(got) + ", expected " + hexs(toQ(want)));
        if (!want.empty() && got.isNull())
            c.fail("decode", "null result for valid " + hexs(in));
    }
    SlipDataProcessor::Frame f = SlipDataProcessor::parseFrame(in);
    if (in.size() >= 2) {
        if (f.socketAddress != (quint8(in[0]) << 8 | quint8(in[1])) || f.data != in.mid(2))
            c.fail("frame-parse", "parsing " + hexs(in) + QString(" gives %1 ").arg(f.socketAddress) + hexs(f.data));
    } else if (!f.data.isEmpty()) {
        c.fail("frame-parse", "payload out of nothing for " + hexs(in));
    }
    return ok;
}

QByteArray slipish(Src &s, int max)
{
    static const unsigned char a[] = {0xC0, 0xDB, 0xDC, 0xDD, 0x00, 0xBF, 0xC1, 0xDA, 0xDE, 0xFF};
    int n = s.size(max);
    QByteArray b;
    if (n > 2000) { // block repetition keeps the choice sequence short
        QByteArray blk = s.bytes(200);
        while (b.size() < n)
            b += blk;
        return b;
    }
    for (int i = 0; i < n; i++) {
        uint64_t v = s.draw(30);
        b.append(v < 10 ? char('a' + v) : v < 25 ? char(a[(v - 10) % sizeof a]) : char(s.draw(256)));
    }
    return b;
}

void run(Src &s, Ctx &c)
{
    int max = s.chance(1, 20) ? (c.tier == "thorough" ? 200000 : 70000) : 4000;
    switch (s.weighted({3, 3, 3})) {
    case 0: {
        QByteArray p = s.chance(1, 2) ? slipish(s, max) : s.payload(max);
        c.trace("payload " + hexs(p, 64));
        checkPayload(c, p);
        c.label(p.contains(char(0xC0)) || p.contains(char(0xDB)) ? "payload-with-control-bytes" : "payload-plain");
        if (p.size() > 1)
            c.nontrivial();
        break;
    }
    case 1: {
        quint16 a = quint16(s.chance(1, 3) ? (s.draw(256) << 8 | s.pick<int>({0xC0, 0xDB, 0xDC, 0xDD, 0, 0xFF})) : s.draw(65536));
        QByteArray p = s.chance(1, 2) ? slipish(s, max) : s.payload(max);
        c.trace(QString("frame %1 ").arg(a) + hexs(p, 64));
        checkFrame(c, a, p);
        c.label("frame");
        if (p.size() > 1)
            c.nontrivial();
        break;
    }
    default: {
        QByteArray p = slipish(s, max);
        c.trace("raw " + hexs(p, 64));
        bool ok = checkDecode(c, p);
        c.label(ok ? "raw-valid" : "raw-invalid");
        // compositional: decode(encode(x) + anything) only depends on x
        if (p.size() > 1)
            c.nontrivial();
        break;
    }
    }
}

long enumerate(Ctx &c)
{
    long n = 0;
    // every string of length 0..2
    checkPayload(c, QByteArray());
    checkDecode(c, QByteArray());
    for (int a = 0; a < 256; a++) {
        QByteArray x(1, char(a));
        checkPayload(c, x);
        checkDecode(c, x);
        n += 2;
        for (int b = 0; b < 256; b++) {
            QByteArray y = x;
            y.append(char(b));
            checkPayload(c, y);
            checkDecode(c, y);
            n += 2;
        }
        c.beat();
    }
    // every string of length 3..6 over the bytes that matter
    static const unsigned char al[] = {0xC0, 0xDB, 0xDC, 0xDD, 'a', 0x00};
    for (int len = 3; len <= 6; len++) {
        long total = 1;
        for (int i = 0; i < len; i++)
            total *= 6;
        for (long k = 0; k < total; k++) {
            QByteArray y;
            long v = k;
            for (int i = 0; i < len; i++, v /= 6)
                y.append(char(al[v % 6]));
            checkPayload(c, y);
            checkDecode(c, y);
            n += 2;
        }
        c.beat();
    }
    // every address
    for (int a = 0; a < 65536; a++) {
        checkFrame(c, quint16(a), QByteArray("\xC0x\xDB", 3));
        n++;
    }
    return n;
}
} // namespace

Property makeProperty()
{
    Property p;
    p.id = "C01";
    p.rule = "a payload to encode, an addressed frame to build, or a raw string to decode, generated with a bias to SLIP control bytes; non-trivial: more than one byte. Distinct by the generated bytes. "
             "Enumerated besides: all strings of length <= 2, all strings of length 3..6 over {END, ESC, ESC_END, ESC_ESC, 'a', 0}, all 65536 addresses.";
    p.run = run;
    p.enumerate = enumerate;
    p.quickCases = 200000;
    p.thoroughCases = 1500000;
    p.needsApp = false;
    p.assumptions = {"the reference codec in the driver implements RFC 1055", "an unfinished escape at the very end of the input is not an error"};
    return p;
}
