pub struct PrivateKeySigner;
