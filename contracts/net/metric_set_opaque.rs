#[verifier::external_body] pub struct MetricSetPart { x: u8 }
