//! Stand-in for `serdect` 0.1 (not in the offline cache): binary encodings only.
pub use serde;
pub mod array {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.as_ref().to_vec().serialize(s)
    }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.as_ref().to_vec().serialize(s)
    }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        let v = Vec::<u8>::deserialize(d)?;
        if v.len() != buf.len() { return Err(serde::de::Error::custom("bad length")); }
        buf.copy_from_slice(&v);
        Ok(())
    }
}
pub mod slice {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.as_ref().to_vec().serialize(s)
    }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.as_ref().to_vec().serialize(s)
    }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Vec::<u8>::deserialize(d)
    }
}
