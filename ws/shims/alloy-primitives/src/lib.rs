pub struct Address; pub struct B256;
