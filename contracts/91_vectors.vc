// The definitions of 02_hash.vc, 03_curve.vc and 10_bip32.vc computed on published test vectors. Nothing else uses these.
#mod vec_hash
pub proof fn vec_sha256() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(sha256(seq![97u8, 98u8, 99u8]) =~= seq![186u8, 120u8, 22u8, 191u8, 143u8, 1u8, 207u8, 234u8, 65u8, 65u8, 64u8, 222u8, 93u8, 174u8, 34u8, 35u8, 176u8, 3u8, 97u8, 163u8, 150u8, 23u8, 122u8, 156u8, 180u8, 16u8, 255u8, 97u8, 242u8, 0u8, 21u8, 173u8]) by(compute_only);
    assert(sha256(Seq::<u8>::empty()) =~= seq![227u8, 176u8, 196u8, 66u8, 152u8, 252u8, 28u8, 20u8, 154u8, 251u8, 244u8, 200u8, 153u8, 111u8, 185u8, 36u8, 39u8, 174u8, 65u8, 228u8, 100u8, 155u8, 147u8, 76u8, 164u8, 149u8, 153u8, 27u8, 120u8, 82u8, 184u8, 85u8]) by(compute_only);
}
pub proof fn vec_sha256_two_blocks() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(sha256(seq![97u8, 98u8, 99u8, 100u8, 98u8, 99u8, 100u8, 101u8, 99u8, 100u8, 101u8, 102u8, 100u8, 101u8, 102u8, 103u8, 101u8, 102u8, 103u8, 104u8, 102u8, 103u8, 104u8, 105u8, 103u8, 104u8, 105u8, 106u8, 104u8, 105u8, 106u8, 107u8, 105u8, 106u8, 107u8, 108u8, 106u8, 107u8, 108u8, 109u8, 107u8, 108u8, 109u8, 110u8, 108u8, 109u8, 110u8, 111u8, 109u8, 110u8, 111u8, 112u8, 110u8, 111u8, 112u8, 113u8]) =~= seq![36u8, 141u8, 106u8, 97u8, 210u8, 6u8, 56u8, 184u8, 229u8, 192u8, 38u8, 147u8, 12u8, 62u8, 96u8, 57u8, 163u8, 60u8, 228u8, 89u8, 100u8, 255u8, 33u8, 103u8, 246u8, 236u8, 237u8, 212u8, 25u8, 219u8, 6u8, 193u8]) by(compute_only);
}
pub proof fn vec_sha512() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(sha512(seq![97u8, 98u8, 99u8]) =~= seq![221u8, 175u8, 53u8, 161u8, 147u8, 97u8, 122u8, 186u8, 204u8, 65u8, 115u8, 73u8, 174u8, 32u8, 65u8, 49u8, 18u8, 230u8, 250u8, 78u8, 137u8, 169u8, 126u8, 162u8, 10u8, 158u8, 238u8, 230u8, 75u8, 85u8, 211u8, 154u8, 33u8, 146u8, 153u8, 42u8, 39u8, 79u8, 193u8, 168u8, 54u8, 186u8, 60u8, 35u8, 163u8, 254u8, 235u8, 189u8, 69u8, 77u8, 68u8, 35u8, 100u8, 60u8, 232u8, 14u8, 42u8, 154u8, 201u8, 79u8, 165u8, 76u8, 164u8, 159u8]) by(compute_only);
}
pub proof fn vec_ripemd160() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(ripemd160(seq![97u8, 98u8, 99u8]) =~= seq![142u8, 178u8, 8u8, 247u8, 224u8, 93u8, 152u8, 122u8, 155u8, 4u8, 74u8, 142u8, 152u8, 198u8, 176u8, 135u8, 241u8, 90u8, 11u8, 252u8]) by(compute_only);
}
pub proof fn vec_ripemd160_two_blocks() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(ripemd160(seq![97u8, 98u8, 99u8, 100u8, 98u8, 99u8, 100u8, 101u8, 99u8, 100u8, 101u8, 102u8, 100u8, 101u8, 102u8, 103u8, 101u8, 102u8, 103u8, 104u8, 102u8, 103u8, 104u8, 105u8, 103u8, 104u8, 105u8, 106u8, 104u8, 105u8, 106u8, 107u8, 105u8, 106u8, 107u8, 108u8, 106u8, 107u8, 108u8, 109u8, 107u8, 108u8, 109u8, 110u8, 108u8, 109u8, 110u8, 111u8, 109u8, 110u8, 111u8, 112u8, 110u8, 111u8, 112u8, 113u8]) =~= seq![18u8, 160u8, 83u8, 56u8, 74u8, 156u8, 12u8, 136u8, 228u8, 5u8, 160u8, 108u8, 39u8, 220u8, 244u8, 154u8, 218u8, 98u8, 235u8, 43u8]) by(compute_only);
}
pub proof fn vec_hmac512() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(hmac512(seq![74u8, 101u8, 102u8, 101u8], seq![119u8, 104u8, 97u8, 116u8, 32u8, 100u8, 111u8, 32u8, 121u8, 97u8, 32u8, 119u8, 97u8, 110u8, 116u8, 32u8, 102u8, 111u8, 114u8, 32u8, 110u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8, 63u8]) =~= seq![22u8, 75u8, 122u8, 123u8, 252u8, 248u8, 25u8, 226u8, 227u8, 149u8, 251u8, 231u8, 59u8, 86u8, 224u8, 163u8, 135u8, 189u8, 100u8, 34u8, 46u8, 131u8, 31u8, 214u8, 16u8, 39u8, 12u8, 215u8, 234u8, 37u8, 5u8, 84u8, 151u8, 88u8, 191u8, 117u8, 192u8, 90u8, 153u8, 74u8, 109u8, 3u8, 79u8, 101u8, 248u8, 240u8, 230u8, 253u8, 202u8, 234u8, 177u8, 163u8, 77u8, 74u8, 107u8, 75u8, 99u8, 110u8, 7u8, 10u8, 56u8, 188u8, 231u8, 55u8]) by(compute_only);
}
pub proof fn vec_hmac512_long_key() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(hmac512(seq![170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8, 170u8], seq![84u8, 101u8, 115u8, 116u8, 32u8, 85u8, 115u8, 105u8, 110u8, 103u8, 32u8, 76u8, 97u8, 114u8, 103u8, 101u8, 114u8, 32u8, 84u8, 104u8, 97u8, 110u8, 32u8, 66u8, 108u8, 111u8, 99u8, 107u8, 45u8, 83u8, 105u8, 122u8, 101u8, 32u8, 75u8, 101u8, 121u8, 32u8, 45u8, 32u8, 72u8, 97u8, 115u8, 104u8, 32u8, 75u8, 101u8, 121u8, 32u8, 70u8, 105u8, 114u8, 115u8, 116u8]) =~= seq![128u8, 178u8, 66u8, 99u8, 199u8, 193u8, 163u8, 235u8, 183u8, 20u8, 147u8, 193u8, 221u8, 123u8, 232u8, 180u8, 155u8, 70u8, 209u8, 244u8, 27u8, 74u8, 238u8, 193u8, 18u8, 27u8, 1u8, 55u8, 131u8, 248u8, 243u8, 82u8, 107u8, 86u8, 208u8, 55u8, 224u8, 95u8, 37u8, 152u8, 189u8, 15u8, 210u8, 33u8, 93u8, 106u8, 30u8, 82u8, 149u8, 230u8, 79u8, 115u8, 246u8, 63u8, 10u8, 236u8, 139u8, 145u8, 90u8, 152u8, 93u8, 120u8, 101u8, 152u8]) by(compute_only);
}
pub proof fn vec_pbkdf2() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(pbkdf2_spec(512, seq![112u8, 97u8, 115u8, 115u8, 119u8, 111u8, 114u8, 100u8], seq![115u8, 97u8, 108u8, 116u8], 2, 64) =~= seq![225u8, 217u8, 193u8, 106u8, 166u8, 129u8, 112u8, 138u8, 69u8, 245u8, 199u8, 196u8, 226u8, 21u8, 206u8, 182u8, 110u8, 1u8, 26u8, 46u8, 159u8, 0u8, 64u8, 113u8, 63u8, 24u8, 174u8, 253u8, 184u8, 102u8, 213u8, 60u8, 247u8, 108u8, 171u8, 40u8, 104u8, 163u8, 155u8, 159u8, 120u8, 64u8, 237u8, 206u8, 79u8, 239u8, 90u8, 130u8, 190u8, 103u8, 51u8, 92u8, 119u8, 166u8, 6u8, 142u8, 4u8, 17u8, 39u8, 84u8, 242u8, 124u8, 207u8, 78u8]) by(compute_only);
}
#mod vec_curve
pub proof fn vec_generator() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(gmul(seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 1u8]) =~= seq![2u8, 121u8, 190u8, 102u8, 126u8, 249u8, 220u8, 187u8, 172u8, 85u8, 160u8, 98u8, 149u8, 206u8, 135u8, 11u8, 7u8, 2u8, 155u8, 252u8, 219u8, 45u8, 206u8, 40u8, 217u8, 89u8, 242u8, 129u8, 91u8, 22u8, 248u8, 23u8, 152u8]) by(compute_only);
    assert(gmul(seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 20u8]) =~= seq![2u8, 76u8, 225u8, 25u8, 201u8, 110u8, 47u8, 163u8, 87u8, 32u8, 11u8, 85u8, 155u8, 47u8, 125u8, 213u8, 165u8, 240u8, 45u8, 82u8, 144u8, 175u8, 247u8, 75u8, 3u8, 243u8, 228u8, 113u8, 178u8, 115u8, 33u8, 28u8, 151u8]) by(compute_only);
}
pub proof fn vec_order() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(padd(seq![2u8, 121u8, 190u8, 102u8, 126u8, 249u8, 220u8, 187u8, 172u8, 85u8, 160u8, 98u8, 149u8, 206u8, 135u8, 11u8, 7u8, 2u8, 155u8, 252u8, 219u8, 45u8, 206u8, 40u8, 217u8, 89u8, 242u8, 129u8, 91u8, 22u8, 248u8, 23u8, 152u8], seq![255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 254u8, 186u8, 174u8, 220u8, 230u8, 175u8, 72u8, 160u8, 59u8, 191u8, 210u8, 94u8, 140u8, 208u8, 54u8, 65u8, 64u8]) is None) by(compute_only);
}
pub proof fn vec_add() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(padd(seq![2u8, 139u8, 114u8, 133u8, 190u8, 188u8, 123u8, 69u8, 113u8, 150u8, 170u8, 124u8, 54u8, 175u8, 219u8, 244u8, 119u8, 221u8, 115u8, 223u8, 91u8, 171u8, 105u8, 173u8, 217u8, 184u8, 9u8, 118u8, 249u8, 172u8, 137u8, 71u8, 239u8], seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 7u8])->0 =~= seq![3u8, 125u8, 236u8, 254u8, 181u8, 158u8, 108u8, 206u8, 135u8, 0u8, 12u8, 151u8, 172u8, 78u8, 26u8, 89u8, 142u8, 237u8, 232u8, 60u8, 102u8, 16u8, 1u8, 9u8, 140u8, 209u8, 61u8, 131u8, 56u8, 196u8, 173u8, 42u8, 92u8]) by(compute_only);
    assert(padd(seq![2u8, 92u8, 189u8, 240u8, 100u8, 110u8, 93u8, 180u8, 234u8, 163u8, 152u8, 243u8, 101u8, 242u8, 234u8, 122u8, 14u8, 61u8, 65u8, 155u8, 126u8, 3u8, 48u8, 227u8, 156u8, 233u8, 43u8, 221u8, 237u8, 202u8, 196u8, 249u8, 188u8], seq![0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 7u8])->0 =~= seq![3u8, 73u8, 159u8, 223u8, 158u8, 137u8, 94u8, 113u8, 156u8, 253u8, 100u8, 230u8, 127u8, 7u8, 211u8, 142u8, 50u8, 38u8, 170u8, 123u8, 99u8, 103u8, 137u8, 73u8, 230u8, 228u8, 155u8, 36u8, 26u8, 96u8, 232u8, 35u8, 228u8]) by(compute_only);
}
pub proof fn vec_invalid() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(!point_ok(seq![2u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 5u8])) by(compute_only);
    assert(!point_ok(seq![2u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 255u8, 254u8, 255u8, 255u8, 252u8, 48u8])) by(compute_only);
    assert(!point_ok(seq![4u8, 121u8, 190u8, 102u8, 126u8, 249u8, 220u8, 187u8, 172u8, 85u8, 160u8, 98u8, 149u8, 206u8, 135u8, 11u8, 7u8, 2u8, 155u8, 252u8, 219u8, 45u8, 206u8, 40u8, 217u8, 89u8, 242u8, 129u8, 91u8, 22u8, 248u8, 23u8, 152u8])) by(compute_only);
    assert(point_ok(seq![2u8, 139u8, 114u8, 133u8, 190u8, 188u8, 123u8, 69u8, 113u8, 150u8, 170u8, 124u8, 54u8, 175u8, 219u8, 244u8, 119u8, 221u8, 115u8, 223u8, 91u8, 171u8, 105u8, 173u8, 217u8, 184u8, 9u8, 118u8, 249u8, 172u8, 137u8, 71u8, 239u8])) by(compute_only);
}
pub proof fn vec_recover() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(ecdsa_recover(seq![186u8, 120u8, 22u8, 191u8, 143u8, 1u8, 207u8, 234u8, 65u8, 65u8, 64u8, 222u8, 93u8, 174u8, 34u8, 35u8, 176u8, 3u8, 97u8, 163u8, 150u8, 23u8, 122u8, 156u8, 180u8, 16u8, 255u8, 97u8, 242u8, 0u8, 21u8, 173u8], seq![47u8, 139u8, 222u8, 77u8, 26u8, 7u8, 32u8, 147u8, 85u8, 180u8, 167u8, 37u8, 10u8, 92u8, 81u8, 40u8, 232u8, 139u8, 132u8, 189u8, 220u8, 97u8, 154u8, 183u8, 203u8, 168u8, 213u8, 105u8, 178u8, 64u8, 239u8, 228u8, 29u8, 175u8, 133u8, 123u8, 249u8, 191u8, 205u8, 18u8, 140u8, 194u8, 187u8, 221u8, 13u8, 186u8, 195u8, 62u8, 28u8, 223u8, 174u8, 199u8, 144u8, 190u8, 98u8, 125u8, 18u8, 71u8, 61u8, 202u8, 170u8, 107u8, 219u8, 233u8], 0)->0 =~= seq![2u8, 139u8, 114u8, 133u8, 190u8, 188u8, 123u8, 69u8, 113u8, 150u8, 170u8, 124u8, 54u8, 175u8, 219u8, 244u8, 119u8, 221u8, 115u8, 223u8, 91u8, 171u8, 105u8, 173u8, 217u8, 184u8, 9u8, 118u8, 249u8, 172u8, 137u8, 71u8, 239u8]) by(compute_only);
}
#mod vec_bip32
pub proof fn vec_master() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(xk_vec(master(seq![0u8, 1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8, 13u8, 14u8, 15u8]), XKey { key: seq![232u8, 243u8, 46u8, 114u8, 61u8, 236u8, 244u8, 5u8, 26u8, 239u8, 172u8, 142u8, 44u8, 147u8, 201u8, 197u8, 178u8, 20u8, 49u8, 56u8, 23u8, 205u8, 176u8, 26u8, 20u8, 148u8, 185u8, 23u8, 200u8, 67u8, 107u8, 53u8], depth: 0, fp: seq![0u8, 0u8, 0u8, 0u8], child: 0, chain: seq![135u8, 61u8, 255u8, 129u8, 192u8, 47u8, 82u8, 86u8, 35u8, 253u8, 31u8, 229u8, 22u8, 126u8, 172u8, 58u8, 85u8, 160u8, 73u8, 222u8, 61u8, 49u8, 75u8, 180u8, 46u8, 226u8, 39u8, 255u8, 237u8, 55u8, 213u8, 8u8] })) by(compute_only);
}
pub proof fn vec_hardened() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(xk_vec(ckd_priv(XKey { key: seq![232u8, 243u8, 46u8, 114u8, 61u8, 236u8, 244u8, 5u8, 26u8, 239u8, 172u8, 142u8, 44u8, 147u8, 201u8, 197u8, 178u8, 20u8, 49u8, 56u8, 23u8, 205u8, 176u8, 26u8, 20u8, 148u8, 185u8, 23u8, 200u8, 67u8, 107u8, 53u8], depth: 0, fp: seq![0u8, 0u8, 0u8, 0u8], child: 0, chain: seq![135u8, 61u8, 255u8, 129u8, 192u8, 47u8, 82u8, 86u8, 35u8, 253u8, 31u8, 229u8, 22u8, 126u8, 172u8, 58u8, 85u8, 160u8, 73u8, 222u8, 61u8, 49u8, 75u8, 180u8, 46u8, 226u8, 39u8, 255u8, 237u8, 55u8, 213u8, 8u8] }, 0x8000_0000), XKey { key: seq![237u8, 178u8, 225u8, 79u8, 158u8, 231u8, 125u8, 38u8, 221u8, 147u8, 180u8, 236u8, 237u8, 232u8, 209u8, 110u8, 212u8, 8u8, 206u8, 20u8, 155u8, 108u8, 216u8, 11u8, 7u8, 21u8, 162u8, 217u8, 17u8, 160u8, 175u8, 234u8], depth: 1, fp: seq![52u8, 66u8, 25u8, 62u8], child: 2147483648, chain: seq![71u8, 253u8, 172u8, 189u8, 15u8, 16u8, 151u8, 4u8, 59u8, 120u8, 198u8, 60u8, 32u8, 195u8, 78u8, 244u8, 237u8, 154u8, 17u8, 29u8, 152u8, 0u8, 71u8, 173u8, 22u8, 40u8, 44u8, 122u8, 230u8, 35u8, 97u8, 65u8] })) by(compute_only);
}
pub proof fn vec_normal() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(xk_vec(ckd_priv(XKey { key: seq![237u8, 178u8, 225u8, 79u8, 158u8, 231u8, 125u8, 38u8, 221u8, 147u8, 180u8, 236u8, 237u8, 232u8, 209u8, 110u8, 212u8, 8u8, 206u8, 20u8, 155u8, 108u8, 216u8, 11u8, 7u8, 21u8, 162u8, 217u8, 17u8, 160u8, 175u8, 234u8], depth: 1, fp: seq![52u8, 66u8, 25u8, 62u8], child: 2147483648, chain: seq![71u8, 253u8, 172u8, 189u8, 15u8, 16u8, 151u8, 4u8, 59u8, 120u8, 198u8, 60u8, 32u8, 195u8, 78u8, 244u8, 237u8, 154u8, 17u8, 29u8, 152u8, 0u8, 71u8, 173u8, 22u8, 40u8, 44u8, 122u8, 230u8, 35u8, 97u8, 65u8] }, 1), XKey { key: seq![60u8, 108u8, 184u8, 208u8, 246u8, 162u8, 100u8, 201u8, 30u8, 168u8, 181u8, 3u8, 15u8, 173u8, 170u8, 142u8, 83u8, 139u8, 2u8, 15u8, 10u8, 56u8, 116u8, 33u8, 161u8, 45u8, 233u8, 49u8, 157u8, 201u8, 51u8, 104u8], depth: 2, fp: seq![92u8, 27u8, 214u8, 72u8], child: 1, chain: seq![42u8, 120u8, 87u8, 99u8, 19u8, 134u8, 186u8, 35u8, 218u8, 202u8, 195u8, 65u8, 128u8, 221u8, 25u8, 131u8, 115u8, 78u8, 68u8, 79u8, 219u8, 247u8, 116u8, 4u8, 21u8, 120u8, 233u8, 182u8, 173u8, 179u8, 124u8, 25u8] })) by(compute_only);
}
pub proof fn vec_public() {
    reveal(sha256); reveal(sha512); reveal(ripemd160); reveal(hmac512); reveal(hmac256); reveal(pbkdf2_spec); reveal(secp_n); reveal(secp_p); reveal(gmul); reveal(padd); reveal(point_ok); reveal(ecdsa_recover);
    assert(xk_vec(ckd_pub(XKey { key: seq![3u8, 90u8, 120u8, 70u8, 98u8, 164u8, 162u8, 10u8, 101u8, 191u8, 106u8, 171u8, 154u8, 233u8, 138u8, 108u8, 6u8, 138u8, 129u8, 197u8, 46u8, 75u8, 3u8, 44u8, 15u8, 181u8, 64u8, 12u8, 112u8, 108u8, 252u8, 204u8, 86u8], depth: 1, fp: seq![52u8, 66u8, 25u8, 62u8], child: 2147483648, chain: seq![71u8, 253u8, 172u8, 189u8, 15u8, 16u8, 151u8, 4u8, 59u8, 120u8, 198u8, 60u8, 32u8, 195u8, 78u8, 244u8, 237u8, 154u8, 17u8, 29u8, 152u8, 0u8, 71u8, 173u8, 22u8, 40u8, 44u8, 122u8, 230u8, 35u8, 97u8, 65u8] }, 1), XKey { key: seq![3u8, 80u8, 30u8, 69u8, 75u8, 240u8, 7u8, 81u8, 242u8, 75u8, 27u8, 72u8, 154u8, 169u8, 37u8, 33u8, 93u8, 102u8, 175u8, 34u8, 52u8, 227u8, 137u8, 28u8, 59u8, 33u8, 165u8, 43u8, 237u8, 179u8, 205u8, 113u8, 28u8], depth: 2, fp: seq![92u8, 27u8, 214u8, 72u8], child: 1, chain: seq![42u8, 120u8, 87u8, 99u8, 19u8, 134u8, 186u8, 35u8, 218u8, 202u8, 195u8, 65u8, 128u8, 221u8, 25u8, 131u8, 115u8, 78u8, 68u8, 79u8, 219u8, 247u8, 116u8, 4u8, 21u8, 120u8, 233u8, 182u8, 173u8, 179u8, 124u8, 25u8] })) by(compute_only);
}
pub proof fn vec_base58() {
    reveal(sha256);
    assert(enc58(check58(seq![4u8, 136u8, 173u8, 228u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 135u8, 61u8, 255u8, 129u8, 192u8, 47u8, 82u8, 86u8, 35u8, 253u8, 31u8, 229u8, 22u8, 126u8, 172u8, 58u8, 85u8, 160u8, 73u8, 222u8, 61u8, 49u8, 75u8, 180u8, 46u8, 226u8, 39u8, 255u8, 237u8, 55u8, 213u8, 8u8, 0u8, 232u8, 243u8, 46u8, 114u8, 61u8, 236u8, 244u8, 5u8, 26u8, 239u8, 172u8, 142u8, 44u8, 147u8, 201u8, 197u8, 178u8, 20u8, 49u8, 56u8, 23u8, 205u8, 176u8, 26u8, 20u8, 148u8, 185u8, 23u8, 200u8, 67u8, 107u8, 53u8])) =~= seq![120u8, 112u8, 114u8, 118u8, 57u8, 115u8, 50u8, 49u8, 90u8, 114u8, 81u8, 72u8, 49u8, 52u8, 51u8, 75u8, 51u8, 81u8, 84u8, 68u8, 76u8, 52u8, 76u8, 88u8, 119u8, 50u8, 70u8, 55u8, 72u8, 69u8, 75u8, 51u8, 119u8, 74u8, 85u8, 68u8, 50u8, 110u8, 87u8, 50u8, 110u8, 82u8, 107u8, 52u8, 115u8, 116u8, 98u8, 80u8, 121u8, 54u8, 99u8, 113u8, 51u8, 106u8, 80u8, 80u8, 113u8, 106u8, 105u8, 67u8, 104u8, 107u8, 86u8, 118u8, 118u8, 78u8, 75u8, 109u8, 80u8, 71u8, 74u8, 120u8, 87u8, 85u8, 116u8, 103u8, 54u8, 76u8, 110u8, 70u8, 53u8, 107u8, 101u8, 106u8, 77u8, 82u8, 78u8, 78u8, 85u8, 51u8, 84u8, 71u8, 116u8, 82u8, 66u8, 101u8, 74u8, 103u8, 107u8, 51u8, 51u8, 121u8, 117u8, 71u8, 66u8, 120u8, 114u8, 77u8, 80u8, 72u8, 105u8]) by(compute_only);
    assert(enc58(seq![0u8, 0u8]) =~= seq![49u8, 49u8]) by(compute_only);
}
pub open spec fn xk_vec(a: Option<XKey>, y: XKey) -> bool {
    match a { Some(x) => x.key =~= y.key && x.fp =~= y.fp && x.chain =~= y.chain && x.depth == y.depth && x.child == y.child, None => false }
}
#end
