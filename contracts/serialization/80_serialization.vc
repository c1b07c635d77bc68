%% serialization/src/lib.rs: clipboard text.  serde's derived code and serde_json are outside: what is assumed of them is here.
%serde SerializedData
#[derive(Serialize)]#[derive(Deserialize)]SerializedData<T>{version:u32,data:T,}
%serde InputNode
#[derive(Serialize)]#[derive(Deserialize)]InputNode{Container(InputNodeVariant,GridVec<InputRow>,),Symbol(String,),}
%serde InputNodeVariant
#[derive(Serialize)]#[derive(Deserialize)]InputNodeVariant{Fraction,Root,Sup,Sub,Table,}
%serde InputRow
#[derive(Serialize)]#[derive(Deserialize)]InputRow{values:Vec<InputNode>,}
%serde GridVec
#[derive(Serialize)]#[derive(Deserialize)]#[serde(try_from="GridVecData<T>")]GridVec<T>{values:Vec<T>,width:usize,}
%serde GridVecData
#[derive(Deserialize)]GridVecData<T>{values:Vec<T>,width:usize,}
%prelude
/// serde_json, assumed: a result is a function of the value or of the text
pub mod serde_json {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Error { x: u8 }
/// a type whose derived Serialize is described by a contract
pub trait VxWritten {
    spec fn vx_written(&self) -> Result<String, Error>;
}
/// a type whose derived Deserialize is described by a contract
pub trait VxRead: Sized {
    spec fn vx_read(s: Seq<char>) -> Result<Self, Error>;
}
#[verifier::external_body]
pub fn to_string<T: VxWritten>(value: &T) -> (r: Result<String, Error>)
    ensures r == value.vx_written(),
{ unimplemented!() }
#[verifier::external_body]
pub fn from_str<T: VxRead>(s: &str) -> (r: Result<T, Error>)
    ensures r == T::vx_read(s@),
{ unimplemented!() }
}
}
%spec serialization
use crate::grid::{GridVec, GridVecData};
use crate::row::InputRow;
use crate::node::sv_nodes;
use crate::input_tree::ok_nodes;
use crate::serde_json::{Error, VxRead, VxWritten};

/// the JSON text of a version and a list of elements
pub uninterp spec fn sp_written(version: u32, data: Seq<InputNode>) -> Result<String, Error>;
/// what the derived code reads from a text
pub uninterp spec fn sp_read(s: Seq<char>) -> Result<SerializedData<Vec<InputNode>>, Error>;
impl VxWritten for SerializedData<&[InputNode]> {
    open spec fn vx_written(&self) -> Result<String, Error> { sp_written(self.version, self.data@) }
}
impl VxWritten for SerializedData<Vec<InputNode>> {
    open spec fn vx_written(&self) -> Result<String, Error> { sp_written(self.version, self.data@) }
}
impl VxRead for SerializedData<Vec<InputNode>> {
    open spec fn vx_read(s: Seq<char>) -> Result<Self, Error> { sp_read(s) }
}
/// `#[from]` of thiserror
impl From<Error> for SerializationError {
    #[verifier::external_body]
    fn from(e: Error) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<Error> for SerializationError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> Self { SerializationError::JsonInputTree(e) }
}

/// `?` converts with that
pub broadcast axiom fn axiom_from(e: Error, r: SerializationError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from(e, r) <==> r == SerializationError::JsonInputTree(e);

// ---------------------------------------------------------------- what is assumed of derived code
/// `try_from` may give this grid for this data
pub open spec fn lets_in(d: GridVecData<InputRow>, g: GridVec<InputRow>) -> bool {
    exists|r: Result<GridVec<InputRow>, &'static str>| #[trigger] call_ensures(<GridVec<InputRow> as TryFrom<GridVecData<InputRow>>>::try_from, (d,), r) && r == Ok::<GridVec<InputRow>, &'static str>(g)
}
/// what is read is put together from what is read: a grid is what `try_from` gives for rows that were read
pub open spec fn read_node(n: InputNode, k: nat) -> bool decreases k, 0int {
    match n {
        InputNode::Symbol(_) => true,
        InputNode::Container(_, g) => k > 0 && exists|d: GridVecData<InputRow>| #[trigger] lets_in(d, g) && read_rows(d.values@, (k - 1) as nat),
    }
}
pub open spec fn read_rows(rows: Seq<InputRow>, k: nat) -> bool decreases k, 1int {
    forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < rows[i].values@.len() ==> read_node(#[trigger] rows[i].values@[j], k)
}
pub axiom fn axiom_read(s: Seq<char>) -> (k: nat)
    ensures sp_read(s) matches Ok(d) ==> forall|i: int| 0 <= i < d.data@.len() ==> read_node(#[trigger] d.data@[i], k);
/// writing these types does not fail
pub axiom fn axiom_written(version: u32, data: Seq<InputNode>)
    ensures sp_written(version, data) is Ok;

/// nested at most k containers deep
pub open spec fn within_row(r: SRow, k: nat) -> bool decreases r {
    forall|i: int| 0 <= i < r.values.len() ==> within(#[trigger] r.values[i], k)
}
pub open spec fn within(n: SNode, k: nat) -> bool decreases n {
    match n {
        SNode::Sym(_) => true,
        SNode::Cont(_, cells, _) => k > 0 && forall|i: int| 0 <= i < cells.len() ==> within_row(#[trigger] cells[i], (k - 1) as nat),
    }
}
/// serde_json reads at most 127 levels of brackets; a container takes 6 of them, the text around the elements 2
pub open spec fn shallow(v: Seq<InputNode>) -> bool { forall|i: int| 0 <= i < v.len() ==> within(#[trigger] sv_nodes(v)[i], 20) }
/// `try_from` gives a grid for its own rows and width, and only that grid
pub open spec fn kept(g: GridVec<InputRow>) -> bool {
    forall|d: GridVecData<InputRow>, r: Result<GridVec<InputRow>, &'static str>| d.values@ == g.values@ && d.width == g.width
        && #[trigger] call_ensures(<GridVec<InputRow> as TryFrom<GridVecData<InputRow>>>::try_from, (d,), r) ==> r == Ok::<GridVec<InputRow>, &'static str>(g)
}
/// derived reading is the inverse of derived writing, as far as `try_from` does not come in between
pub axiom fn axiom_round_trip(version: u32, data: Seq<InputNode>)
    requires
        ok_nodes(data), shallow(data), forall|g: GridVec<InputRow>| g.wf() ==> #[trigger] kept(g),
    ensures
        sp_written(version, data) matches Ok(t) ==> (sp_read(t@) matches Ok(d) && d.version == version && d.data@ == data);

// ---------------------------------------------------------------- the statement
pub open spec fn serialized(nodes: Seq<InputNode>, data_type: SerializedDataType) -> Result<String, SerializationError> {
    match sp_written(1, nodes) { Ok(t) => Ok(t), Err(e) => Err(SerializationError::JsonInputTree(e)) }
}
pub open spec fn deserialized(data: String, data_type: Option<SerializedDataType>) -> Result<Vec<InputNode>, SerializationError> {
    match sp_read(data@) { Ok(d) => Ok(d.data), Err(e) => Err(SerializationError::JsonInputTree(e)) }
}
proof fn lemma_read_node(n: InputNode, k: nat)
    requires read_node(n, k),
    ensures ok_node(n.sv()),
    decreases k,
{
    if let InputNode::Container(_, g) = n {
        let d = choose|d: GridVecData<InputRow>| #[trigger] lets_in(d, g) && read_rows(d.values@, (k - 1) as nat);
        assert(g.wf() && g.values@ == d.values@);
        assert forall|i: int| 0 <= i < g.values@.len() implies ok_row(#[trigger] g.sv_cells()[i]) by {
            assert forall|j: int| 0 <= j < g.values@[i].values@.len() implies ok_node(#[trigger] g.values@[i].sv().values[j]) by {
                lemma_read_node(g.values@[i].values@[j], (k - 1) as nat);
            }
        }
    }
}
/// what is read from any text are well-formed elements
pub proof fn c19_wellformed(data: String, data_type: Option<SerializedDataType>)
    ensures deserialized(data, data_type) matches Ok(v) ==> ok_nodes(v@),
{
    let k = axiom_read(data@);
    if let Ok(d) = sp_read(data@) {
        assert forall|i: int| 0 <= i < d.data@.len() implies ok_node(#[trigger] sv_nodes(d.data@)[i]) by { lemma_read_node(d.data@[i], k); }
    }
}
/// what was written is read back
pub proof fn c19_round_trip(nodes: Seq<InputNode>, data_type: SerializedDataType)
    requires ok_nodes(nodes), shallow(nodes),
    ensures serialized(nodes, data_type) matches Ok(t) && (deserialized(t, Some(data_type)) matches Ok(v) && v@ == nodes),
{
    broadcast use crate::vx::axiom_vec_ext;
    axiom_written(1, nodes);
    axiom_round_trip(1, nodes);
}
%end
%fn serialize_input_nodes(nodes, data_type) -> r
%ensures
    r == serialized(nodes@, data_type),
%start
    broadcast use axiom_from;
%fn deserialize_input_nodes(data, data_type) -> r
%requires
    // without a type it is a todo!()
    data_type is Some,
%ensures
    r == deserialized(data, data_type), r matches Ok(v) ==> ok_nodes(v@),
%start
    broadcast use axiom_from;
    proof { c19_wellformed(data, data_type); }
%end
