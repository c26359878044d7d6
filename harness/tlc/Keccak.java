import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Keccak256 of spec/Keccak.tla, evaluated here because TLC loads a class of the name of a module with it. */
public final class Keccak {
	private static final int[] ROT = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};

	private static final long[] RC = new long[24];

	static {
		int lfsr = 1;
		for (int r = 0; r < 24; r++) {
			for (int j = 0; j < 7; j++) {
				if ((lfsr & 1) != 0) {
					RC[r] |= 1L << ((1 << j) - 1);
				}
				lfsr = (lfsr << 1) ^ ((lfsr & 0x80) != 0 ? 0x171 : 0);
			}
		}
	}

	private static void permute(long[] a) {
		long[] b = new long[25], c = new long[5];
		for (int r = 0; r < 24; r++) {
			for (int x = 0; x < 5; x++) {
				c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
			}
			for (int i = 0; i < 25; i++) {
				a[i] ^= c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
			}
			for (int i = 0; i < 25; i++) {
				int x = i % 5, y = i / 5;
				b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[i], ROT[i]);
			}
			for (int i = 0; i < 25; i++) {
				int y = i / 5 * 5;
				a[i] = b[i] ^ (~b[y + (i + 1) % 5] & b[y + (i + 2) % 5]);
			}
			a[0] ^= RC[r];
		}
	}

	public static Value Keccak256(Value msg) {
		Value[] m = ((TupleValue) msg.toTuple()).elems;
		int n = m.length, total = (n / 136 + 1) * 136;
		byte[] p = new byte[total];
		for (int i = 0; i < n; i++) {
			int v = ((IntValue) m[i]).val;
			if (v < 0 || v > 255) {
				throw new IllegalArgumentException("not a byte: " + v);
			}
			p[i] = (byte) v;
		}
		p[n] |= 1;
		p[total - 1] |= (byte) 0x80;
		long[] a = new long[25];
		for (int o = 0; o < total; o += 136) {
			for (int i = 0; i < 136; i++) {
				a[i / 8] ^= (p[o + i] & 255L) << (8 * (i % 8));
			}
			permute(a);
		}
		Value[] out = new Value[32];
		for (int i = 0; i < 32; i++) {
			out[i] = IntValue.gen((int) (a[i / 8] >>> (8 * (i % 8)) & 255));
		}
		return new TupleValue(out);
	}
}
