PROPS = [
 dict(id="E01", title="Encryption to a curve key is exact, invertible and never reuses its stream",
  statement="Encrypting a list of field elements of any length under given randomness yields the ephemeral point and the message plus the key stream of the shared point, and decrypting returns the message. Each encryption uses its own ephemeral key and stream, another key recovers nothing, a changed element changes only itself, and the flat and binary forms are faithful and refuse what is no element of the group without panic.",
  over=["inputs", "fault_sequences"], q="every key, randomness and message length up to several blocks with a partial last one, every alteration of a ciphertext, on four curves",
  why="Tests compare decryption with the message, which holds as well for a constant stream, a repeated block or a wrong shared secret used on both sides.",
  files=["elgamal/src/lib.rs"],
  mech=[("shared key", "elgamal/src/lib.rs compute_cipher_text_from_ephemeral_key_pair, DecKey::decrypt"), ("stream", "elgamal/src/lib.rs apply_counter_mode_stream"), ("flat form", "elgamal/src/lib.rs to_scalars, from_scalars")],
  observe=["ciphertexts", "decrypted messages", "ephemeral keys"], technique="runtime monitor, exact model of the scheme and freshness monitor",
  note="The stream is computed block by block from the permutation and block cipher, which have checks of their own."),
 dict(id="E02", title="Authenticated encryption opens only unaltered ciphertexts",
  statement="What is encrypted to a key with associated data is opened by that key with the same associated data, and by the published algorithms; any change to nonce, sealed bytes, sender key, associated data or receiver makes opening fail with an error. Every encryption uses a fresh nonce and sender key, and ciphertexts and keys keep their value in binary, canonical and JSON form while malformed ones are refused without panic.",
  over=["inputs", "fault_sequences"], q="every message and associated data length incl. none, every altered, cut, extended, exchanged or moved part",
  why="Tests change the associated data and the receiver once; authentication is a statement about all alterations, and decoding untrusted bytes about all lengths.",
  files=["aead/src/lib.rs"],
  mech=[("sealing and opening", "aead/src/lib.rs EncKey::encrypt, KeyPair::decrypt"), ("nonce encoding", "aead/src/lib.rs impl Deserialize for Nonce, canonical_serde")],
  observe=["opened messages", "errors", "nonces and sender keys", "decoded objects"], technique="runtime monitor, structured alterations with an independent opening and a freshness monitor",
  note="The two underlying libraries are not available offline; stand-ins written from the published algorithms and checked against their test vectors are used."),
]
