// zkgroup is not available here; call link root keys use one constant of it.
pub mod call_links {
    pub struct CallLinkSecretParams;
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
    }
}
