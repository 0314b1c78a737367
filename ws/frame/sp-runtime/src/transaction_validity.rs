#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum InvalidTransaction {
    Call,
    Payment,
    Future,
    Stale,
    BadProof,
    Custom(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UnknownTransaction {
    CannotLookup,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionValidityError {
    Invalid(InvalidTransaction),
    Unknown(UnknownTransaction),
}
impl From<InvalidTransaction> for TransactionValidityError {
    fn from(e: InvalidTransaction) -> Self {
        Self::Invalid(e)
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ValidTransaction {
    pub priority: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionSource {
    InBlock,
    Local,
    External,
}
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
