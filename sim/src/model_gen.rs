// Written by tools/gen_model.py, then committed: the pinned wire layout. Not regenerated by the checks.
#![allow(deprecated, unreachable_patterns, clippy::all)]
use crate::model::*;
use open_dis_rust::common::{Pdu, PduHeader, LiveEntityPduHeader, GenericHeader, SerializedLength};
use open_dis_rust::common::enums::*;
use open_dis_rust::pdu_macro::{FieldSerialize, FieldDeserialize, FieldLen};
use open_dis_rust::common::data_types::acoustic_beam_data::AcousticBeamData;
use open_dis_rust::common::data_types::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter;
use open_dis_rust::common::data_types::acoustic_emitter_system::AcousticEmitterSystem;
use open_dis_rust::common::data_types::acoustic_emitter_system_data::AcousticEmitterSystemData;
use open_dis_rust::common::data_types::aggregate_id::AggregateId;
use open_dis_rust::common::data_types::aggregate_marking::AggregateMarking;
use open_dis_rust::common::data_types::angular_velocity_vector::AngularVelocity;
use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
use open_dis_rust::common::data_types::apa_data::ApaData;
use open_dis_rust::common::data_types::attribute_record::AttributeRecord;
use open_dis_rust::common::data_types::attribute_record_set::AttributeRecordSet;
use open_dis_rust::common::data_types::beam_data::BeamData;
use open_dis_rust::common::data_types::clock_time::ClockTime;
use open_dis_rust::common::data_types::dead_reckoning_parameters::DeadReckoningParameters;
use open_dis_rust::common::data_types::directed_energy_damage::DirectedEnergyDamage;
use open_dis_rust::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData;
use open_dis_rust::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData;
use open_dis_rust::common::data_types::emitter_system::EmitterSystem;
use open_dis_rust::common::data_types::entity_coordinate_vector::EntityCoordinateVector;
use open_dis_rust::common::data_types::entity_id::EntityId;
use open_dis_rust::common::data_types::entity_marking::EntityMarking;
use open_dis_rust::common::data_types::entity_type::EntityType;
use open_dis_rust::common::data_types::environment::Environment;
use open_dis_rust::common::data_types::euler_angles::EulerAngles;
use open_dis_rust::common::data_types::event_id::EventId;
use open_dis_rust::common::data_types::datum_records::FixedDatumRecord;
use open_dis_rust::common::data_types::fundamental_operational_data::FundamentalOperationalData;
use open_dis_rust::common::data_types::fundamental_parameter_data::FundamentalParameterData;
use open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisDescriptor;
use open_dis_rust::common::data_types::grid_data_record::GridDataRecord;
use open_dis_rust::common::data_types::iff_fundamental_parameter_data::IFFFundamentalParameterData;
use open_dis_rust::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters;
use open_dis_rust::common::data_types::layer_header::LayerHeader;
use open_dis_rust::common::data_types::linear_acceleration::LinearAcceleration;
use open_dis_rust::common::data_types::linear_segment_parameter::LinearSegmentParameter;
use open_dis_rust::common::data_types::linear_velocity::LinearVelocity;
use open_dis_rust::common::data_types::minefield_identifier::MinefieldIdentifier;
use open_dis_rust::common::data_types::modulation_parameters::ModulationParameters;
use open_dis_rust::common::data_types::modulation_type::ModulationType;
use open_dis_rust::common::data_types::munition_descriptor::MunitionDescriptor;
use open_dis_rust::common::data_types::named_location::NamedLocation;
use open_dis_rust::common::data_types::object_identifier::ObjectIdentifier;
use open_dis_rust::common::data_types::object_type::ObjectType;
use open_dis_rust::common::data_types::point::Point;
use open_dis_rust::common::data_types::propulsion_system_data::PropulsionSystemData;
use open_dis_rust::common::data_types::radio_entity_type::RadioEntityType;
use open_dis_rust::common::data_types::record_specification::RecordSpecification;
use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
use open_dis_rust::common::data_types::relationship::Relationship;
use open_dis_rust::common::data_types::secondary_operational_data::SecondaryOperationalData;
use open_dis_rust::common::data_types::shaft_rpms::ShaftRPMs;
use open_dis_rust::common::data_types::simulation_address::SimulationAddress;
use open_dis_rust::common::data_types::simulation_id::SimulationIdentifier;
use open_dis_rust::common::data_types::standard_variable_records::StandardVariableRecords;
use open_dis_rust::common::data_types::standard_variable_specification::StandardVariableSpecification;
use open_dis_rust::common::data_types::supply_quantity::SupplyQuantity;
use open_dis_rust::common::data_types::system_id::SystemId;
use open_dis_rust::common::data_types::track_jam_target::TrackJamTarget;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
use open_dis_rust::common::data_types::variable_parameter::VariableParameter;
use open_dis_rust::common::data_types::variable_transmitter_parameters::VariableTransmitterParameters;
use open_dis_rust::common::data_types::vector3_double::Vector3Double;
use open_dis_rust::common::data_types::vector3_float::Vector3Float;
use open_dis_rust::common::data_types::vectoring_nozzle_system_data::VectoringNozzleSystemData;
use open_dis_rust::common::data_types::velocity_vector::VelocityVector;
use open_dis_rust::common::data_types::world_coordinate::WorldCoordinate;
use open_dis_rust::entity_information::EntityStatePdu;
use open_dis_rust::warfare::FirePdu;
use open_dis_rust::warfare::DetonationPdu;
use open_dis_rust::entity_information::CollisionPdu;
use open_dis_rust::logistics::ServiceRequestPdu;
use open_dis_rust::logistics::ResupplyOfferPdu;
use open_dis_rust::logistics::ResupplyReceivedPdu;
use open_dis_rust::logistics::ResupplyCancelPdu;
use open_dis_rust::logistics::RepairCompletePdu;
use open_dis_rust::logistics::RepairResponsePdu;
use open_dis_rust::simulation_management::CreateEntityPdu;
use open_dis_rust::simulation_management::RemoveEntityPdu;
use open_dis_rust::simulation_management::StartResumePdu;
use open_dis_rust::simulation_management::StopFreezePdu;
use open_dis_rust::simulation_management::AcknowledgePdu;
use open_dis_rust::simulation_management::ActionRequestPdu;
use open_dis_rust::simulation_management::ActionResponsePdu;
use open_dis_rust::simulation_management::DataQueryPdu;
use open_dis_rust::simulation_management::SetDataPdu;
use open_dis_rust::simulation_management::DataPdu;
use open_dis_rust::simulation_management::EventReportPdu;
use open_dis_rust::simulation_management::CommentPdu;
use open_dis_rust::distributed_emissions::ElectromagneticEmissionsPdu;
use open_dis_rust::distributed_emissions::DesignatorPdu;
use open_dis_rust::radio_communications::TransmitterPdu;
use open_dis_rust::radio_communications::SignalPdu;
use open_dis_rust::radio_communications::ReceiverPdu;
use open_dis_rust::distributed_emissions::IFFPdu;
use open_dis_rust::distributed_emissions::UnderwaterAcousticPdu;
use open_dis_rust::distributed_emissions::SupplementalEmissionPdu;
use open_dis_rust::radio_communications::IntercomSignalPdu;
use open_dis_rust::radio_communications::IntercomControlPdu;
use open_dis_rust::entity_management::AggregateStatePdu;
use open_dis_rust::entity_management::IsGroupOfPdu;
use open_dis_rust::entity_management::TransferOwnershipPdu;
use open_dis_rust::entity_management::IsPartOfPdu;
use open_dis_rust::minefield::MinefieldStatePdu;
use open_dis_rust::minefield::MinefieldQueryPdu;
use open_dis_rust::minefield::MinefieldDataPdu;
use open_dis_rust::minefield::MinefieldResponseNackPdu;
use open_dis_rust::synthetic_environment::EnvironmentalProcessPdu;
use open_dis_rust::synthetic_environment::GriddedDataPdu;
use open_dis_rust::synthetic_environment::PointObjectStatePdu;
use open_dis_rust::synthetic_environment::LinearObjectStatePdu;
use open_dis_rust::synthetic_environment::ArealObjectStatePdu;
use open_dis_rust::simulation_management_with_reliability::CreateEntityReliablePdu;
use open_dis_rust::simulation_management_with_reliability::RemoveEntityReliablePdu;
use open_dis_rust::simulation_management_with_reliability::StartResumeReliablePdu;
use open_dis_rust::simulation_management_with_reliability::StopFreezeReliablePdu;
use open_dis_rust::simulation_management_with_reliability::AcknowledgeReliablePdu;
use open_dis_rust::simulation_management_with_reliability::ActionRequestReliablePdu;
use open_dis_rust::simulation_management_with_reliability::ActionResponseReliablePdu;
use open_dis_rust::simulation_management_with_reliability::DataQueryReliablePdu;
use open_dis_rust::simulation_management_with_reliability::SetDataReliablePdu;
use open_dis_rust::simulation_management_with_reliability::DataReliablePdu;
use open_dis_rust::simulation_management_with_reliability::EventReportReliablePdu;
use open_dis_rust::simulation_management_with_reliability::CommentReliablePdu;
use open_dis_rust::simulation_management_with_reliability::SetRecordReliablePdu;
use open_dis_rust::simulation_management_with_reliability::RecordQueryReliablePdu;
use open_dis_rust::entity_information::CollisionElasticPdu;
use open_dis_rust::entity_information::EntityStateUpdatePdu;
use open_dis_rust::warfare::DirectedEnergyFirePdu;
use open_dis_rust::warfare::EntityDamageStatusPdu;
use open_dis_rust::information_operations::InformationOperationsActionPdu;
use open_dis_rust::information_operations::InformationOperationsReportPdu;
use open_dis_rust::entity_information::AttributePdu;

const ACKNOWLEDGEFLAG_ALL: &[AcknowledgeFlag] = &[AcknowledgeFlag::CreateEntity, AcknowledgeFlag::RemoveEntity, AcknowledgeFlag::StartResume, AcknowledgeFlag::StopFreeze, AcknowledgeFlag::TransferOwnership];
const ACKNOWLEDGEFLAG_NUM: &[u32] = &[1, 2, 3, 4, 5];
pub fn acknowledgeflag_value(v: AcknowledgeFlag) -> u32 { match v {
    AcknowledgeFlag::CreateEntity => 1,
    AcknowledgeFlag::RemoveEntity => 2,
    AcknowledgeFlag::StartResume => 3,
    AcknowledgeFlag::StopFreeze => 4,
    AcknowledgeFlag::TransferOwnership => 5,
    other => other as u32,
} }
impl Model for AcknowledgeFlag {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(0, ACKNOWLEDGEFLAG_ALL, ACKNOWLEDGEFLAG_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(acknowledgeflag_value(*self), 2, 0); }
}
const ACKNOWLEDGERESPONSEFLAG_ALL: &[AcknowledgeResponseFlag] = &[AcknowledgeResponseFlag::Other, AcknowledgeResponseFlag::AbleToComply, AcknowledgeResponseFlag::UnableToComply, AcknowledgeResponseFlag::PendingOperatorAction];
const ACKNOWLEDGERESPONSEFLAG_NUM: &[u32] = &[0, 1, 2, 3];
pub fn acknowledgeresponseflag_value(v: AcknowledgeResponseFlag) -> u32 { match v {
    AcknowledgeResponseFlag::Other => 0,
    AcknowledgeResponseFlag::AbleToComply => 1,
    AcknowledgeResponseFlag::UnableToComply => 2,
    AcknowledgeResponseFlag::PendingOperatorAction => 3,
    other => other as u32,
} }
impl Model for AcknowledgeResponseFlag {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(1, ACKNOWLEDGERESPONSEFLAG_ALL, ACKNOWLEDGERESPONSEFLAG_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(acknowledgeresponseflag_value(*self), 2, 1); }
}
const ACTIONRESPONSEREQUESTSTATUS_ALL: &[ActionResponseRequestStatus] = &[ActionResponseRequestStatus::Other, ActionResponseRequestStatus::Pending, ActionResponseRequestStatus::Executing, ActionResponseRequestStatus::PartiallyComplete, ActionResponseRequestStatus::Complete, ActionResponseRequestStatus::RequestRejected, ActionResponseRequestStatus::RetransmitRequestNow, ActionResponseRequestStatus::RetransmitRequestLater, ActionResponseRequestStatus::InvalidTimeParameters, ActionResponseRequestStatus::SimulationTimeExceeded, ActionResponseRequestStatus::RequestDone, ActionResponseRequestStatus::TACCSFLOSReplyTypeOne, ActionResponseRequestStatus::TACCSFLOSReplyTypeTwo, ActionResponseRequestStatus::JoinExerciseRequestRejected];
const ACTIONRESPONSEREQUESTSTATUS_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 101, 201];
pub fn actionresponserequeststatus_value(v: ActionResponseRequestStatus) -> u32 { match v {
    ActionResponseRequestStatus::Other => 0,
    ActionResponseRequestStatus::Pending => 1,
    ActionResponseRequestStatus::Executing => 2,
    ActionResponseRequestStatus::PartiallyComplete => 3,
    ActionResponseRequestStatus::Complete => 4,
    ActionResponseRequestStatus::RequestRejected => 5,
    ActionResponseRequestStatus::RetransmitRequestNow => 6,
    ActionResponseRequestStatus::RetransmitRequestLater => 7,
    ActionResponseRequestStatus::InvalidTimeParameters => 8,
    ActionResponseRequestStatus::SimulationTimeExceeded => 9,
    ActionResponseRequestStatus::RequestDone => 10,
    ActionResponseRequestStatus::TACCSFLOSReplyTypeOne => 100,
    ActionResponseRequestStatus::TACCSFLOSReplyTypeTwo => 101,
    ActionResponseRequestStatus::JoinExerciseRequestRejected => 201,
    other => other as u32,
} }
impl Model for ActionResponseRequestStatus {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(2, ACTIONRESPONSEREQUESTSTATUS_ALL, ACTIONRESPONSEREQUESTSTATUS_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(actionresponserequeststatus_value(*self), 4, 2); }
}
const AGGREGATESTATEAGGREGATESTATE_ALL: &[AggregateStateAggregateState] = &[AggregateStateAggregateState::Other, AggregateStateAggregateState::Aggregated, AggregateStateAggregateState::Disaggregated, AggregateStateAggregateState::Fullydisaggregated, AggregateStateAggregateState::Pseudodisaggregated, AggregateStateAggregateState::Partiallydisaggregated];
const AGGREGATESTATEAGGREGATESTATE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5];
pub fn aggregatestateaggregatestate_value(v: AggregateStateAggregateState) -> u32 { match v {
    AggregateStateAggregateState::Other => 0,
    AggregateStateAggregateState::Aggregated => 1,
    AggregateStateAggregateState::Disaggregated => 2,
    AggregateStateAggregateState::Fullydisaggregated => 3,
    AggregateStateAggregateState::Pseudodisaggregated => 4,
    AggregateStateAggregateState::Partiallydisaggregated => 5,
    other => other as u32,
} }
impl Model for AggregateStateAggregateState {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(3, AGGREGATESTATEAGGREGATESTATE_ALL, AGGREGATESTATEAGGREGATESTATE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(aggregatestateaggregatestate_value(*self), 1, 3); }
}
const AGGREGATESTATEFORMATION_ALL: &[AggregateStateFormation] = &[AggregateStateFormation::Other, AggregateStateFormation::Assembly, AggregateStateFormation::Vee, AggregateStateFormation::Wedge, AggregateStateFormation::Line, AggregateStateFormation::Column];
const AGGREGATESTATEFORMATION_NUM: &[u32] = &[0, 1, 2, 3, 4, 5];
pub fn aggregatestateformation_value(v: AggregateStateFormation) -> u32 { match v {
    AggregateStateFormation::Other => 0,
    AggregateStateFormation::Assembly => 1,
    AggregateStateFormation::Vee => 2,
    AggregateStateFormation::Wedge => 3,
    AggregateStateFormation::Line => 4,
    AggregateStateFormation::Column => 5,
    other => other as u32,
} }
impl Model for AggregateStateFormation {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(4, AGGREGATESTATEFORMATION_ALL, AGGREGATESTATEFORMATION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(aggregatestateformation_value(*self), 4, 4); }
}
const COMPONENTDAMAGESTATUS_ALL: &[ComponentDamageStatus] = &[ComponentDamageStatus::NoDamage, ComponentDamageStatus::MinorDamage, ComponentDamageStatus::MediumDamage, ComponentDamageStatus::MajorDamage, ComponentDamageStatus::Destroyed];
const COMPONENTDAMAGESTATUS_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn componentdamagestatus_value(v: ComponentDamageStatus) -> u32 { match v {
    ComponentDamageStatus::NoDamage => 0,
    ComponentDamageStatus::MinorDamage => 1,
    ComponentDamageStatus::MediumDamage => 2,
    ComponentDamageStatus::MajorDamage => 3,
    ComponentDamageStatus::Destroyed => 4,
    other => other as u32,
} }
impl Model for ComponentDamageStatus {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(5, COMPONENTDAMAGESTATUS_ALL, COMPONENTDAMAGESTATUS_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(componentdamagestatus_value(*self), 1, 5); }
}
const COMPONENTIDENTIFICATION_ALL: &[ComponentIdentification] = &[ComponentIdentification::EntityCenter, ComponentIdentification::EntityStructure, ComponentIdentification::ControlSystem, ComponentIdentification::ControlSurface, ComponentIdentification::EnginePropulsionSystem, ComponentIdentification::CrewMember, ComponentIdentification::Fuse, ComponentIdentification::AcquisitionSensor, ComponentIdentification::TrackingSensor, ComponentIdentification::FuelTankSolidRocketMotor];
const COMPONENTIDENTIFICATION_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn componentidentification_value(v: ComponentIdentification) -> u32 { match v {
    ComponentIdentification::EntityCenter => 0,
    ComponentIdentification::EntityStructure => 1,
    ComponentIdentification::ControlSystem => 2,
    ComponentIdentification::ControlSurface => 3,
    ComponentIdentification::EnginePropulsionSystem => 4,
    ComponentIdentification::CrewMember => 5,
    ComponentIdentification::Fuse => 6,
    ComponentIdentification::AcquisitionSensor => 7,
    ComponentIdentification::TrackingSensor => 8,
    ComponentIdentification::FuelTankSolidRocketMotor => 9,
    other => other as u32,
} }
impl Model for ComponentIdentification {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(6, COMPONENTIDENTIFICATION_ALL, COMPONENTIDENTIFICATION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(componentidentification_value(*self), 1, 6); }
}
const COMPONENTVISUALSMOKECOLOR_ALL: &[ComponentVisualSmokeColor] = &[ComponentVisualSmokeColor::NoSmoke, ComponentVisualSmokeColor::White, ComponentVisualSmokeColor::Gray, ComponentVisualSmokeColor::Black];
const COMPONENTVISUALSMOKECOLOR_NUM: &[u32] = &[0, 1, 2, 3];
pub fn componentvisualsmokecolor_value(v: ComponentVisualSmokeColor) -> u32 { match v {
    ComponentVisualSmokeColor::NoSmoke => 0,
    ComponentVisualSmokeColor::White => 1,
    ComponentVisualSmokeColor::Gray => 2,
    ComponentVisualSmokeColor::Black => 3,
    other => other as u32,
} }
impl Model for ComponentVisualSmokeColor {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(7, COMPONENTVISUALSMOKECOLOR_ALL, COMPONENTVISUALSMOKECOLOR_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(componentvisualsmokecolor_value(*self), 1, 7); }
}
const COUNTRY_ALL: &[Country] = &[Country::Other, Country::Afghanistan, Country::Albania, Country::Algeria, Country::AmericanSamoa, Country::Andorra, Country::Angola, Country::Anguilla, Country::Antarctica, Country::AntiguaandBarbuda, Country::Argentina, Country::Aruba, Country::AshmoreandCartierIslands, Country::Australia, Country::Austria, Country::Bahamas, Country::Bahrain, Country::BakerIsland, Country::Bangladesh, Country::Barbados, Country::BassasdaIndia, Country::Belgium, Country::Belize, Country::Benin, Country::Bermuda, Country::Bhutan, Country::Bolivia, Country::Botswana, Country::BouvetIsland, Country::Brazil, Country::BritishIndianOceanTerritory, Country::VirginIslandsBritish, Country::BruneiDarussalam, Country::Bulgaria, Country::BurkinaFaso, Country::Myanmar, Country::Burundi, Country::Cambodia, Country::Cameroon, Country::Canada, Country::CaboVerde, Country::CaymanIslands, Country::CentralAfricanRepublic, Country::Chad, Country::Chile, Country::ChinaPeoplesRepublicof, Country::ChristmasIsland, Country::Cocos, Country::Colombia, Country::Comoros, Country::Congo, Country::CookIslands, Country::CoralSeaIslands, Country::CostaRica, Country::Cuba, Country::Cyprus, Country::Czechoslovakia, Country::Denmark, Country::Djibouti, Country::Dominica, Country::DominicanRepublic, Country::Ecuador, Country::Egypt, Country::ElSalvador, Country::EquatorialGuinea, Country::Ethiopia, Country::EuropaIsland, Country::FalklandIslands, Country::FaroeIslands, Country::Fiji, Country::Finland, Country::France, Country::FrenchGuiana, Country::FrenchPolynesia, Country::FrenchSouthernTerritories, Country::Gabon, Country::GambiaThe, Country::GazaStrip, Country::Germany, Country::Ghana, Country::Gibraltar, Country::GloriosoIslands, Country::Greece, Country::Greenland, Country::Grenada, Country::Guadeloupe, Country::Guam, Country::Guatemala, Country::Guernsey, Country::Guinea, Country::GuineaBissau, Country::Guyana, Country::Haiti, Country::HeardIslandandMcDonaldIslands, Country::Honduras, Country::HongKong, Country::HowlandIsland, Country::Hungary, Country::Iceland, Country::India, Country::Indonesia, Country::Iran, Country::Iraq, Country::Ireland, Country::Israel, Country::Italy, Country::CotedIvoire, Country::Jamaica, Country::JanMayen, Country::Japan, Country::JarvisIsland, Country::Jersey, Country::JohnstonAtoll, Country::Jordan, Country::JuandeNovaIsland, Country::Kenya, Country::KingmanReef, Country::Kiribati, Country::KoreaDemocraticPeoplesRepublicOf, Country::KoreaRepublicOf, Country::Kuwait, Country::LaoPeoplesDemocraticRepublic, Country::Lebanon, Country::Lesotho, Country::Liberia, Country::Libya, Country::Liechtenstein, Country::Luxembourg, Country::Madagascar, Country::Macao, Country::Malawi, Country::Malaysia, Country::Maldives, Country::Mali, Country::Malta, Country::IsleofMan, Country::MarshallIslands, Country::Martinique, Country::Mauritania, Country::Mauritius, Country::Mayotte, Country::Mexico, Country::Micronesia, Country::Monaco, Country::Mongolia, Country::Montserrat, Country::Morocco, Country::Mozambique, Country::Namibia, Country::Nauru, Country::NavassaIsland, Country::Nepal, Country::Netherlands, Country::NetherlandsAntilles, Country::NewCaledonia, Country::NewZealand, Country::Nicaragua, Country::Niger, Country::Nigeria, Country::Niue, Country::NorfolkIsland, Country::NorthernMarianaIslands, Country::Norway, Country::Oman, Country::Pakistan, Country::PalmyraAtoll, Country::Panama, Country::PapuaNewGuinea, Country::ParacelIslands, Country::Paraguay, Country::Peru, Country::Philippines, Country::Pitcairn, Country::Poland, Country::Portugal, Country::PuertoRico, Country::Qatar, Country::Reunion, Country::Romania, Country::Rwanda, Country::SaintKittsandNevis, Country::SaintHelenaAscensionandTristandaCunha, Country::SaintLucia, Country::SaintPierreandMiquelon, Country::SaintVincentandtheGrenadines, Country::SanMarino, Country::SaoTomeandPrincipe, Country::SaudiArabia, Country::Senegal, Country::Seychelles, Country::SierraLeone, Country::Singapore, Country::SolomonIslands, Country::Somalia, Country::SouthGeorgiaandtheSouthSandwichIslands, Country::SouthAfrica, Country::Spain, Country::SpratlyIslands, Country::SriLanka, Country::Sudan, Country::Suriname, Country::Svalbard, Country::Eswatini, Country::Sweden, Country::Switzerland, Country::SyrianArabRepublic, Country::TaiwanProvinceofChina, Country::TanzaniaUnitedRepublicof, Country::Thailand, Country::Togo, Country::Tokelau, Country::Tonga, Country::TrinidadandTobago, Country::TromelinIsland, Country::Palau, Country::Tunisia, Country::Turkey, Country::TurksandCaicosIslands, Country::Tuvalu, Country::Uganda, Country::Russia, Country::UnitedArabEmirates, Country::UnitedKingdomofGreatBritainandNorthernIreland, Country::UnitedStatesofAmerica, Country::Uruguay, Country::Vanuatu, Country::HolySee, Country::Venezuela, Country::VietNam, Country::VirginIslandsUS, Country::WakeIsland, Country::WallisandFutuna, Country::WesternSahara, Country::WestBank, Country::Samoa, Country::Yemen, Country::SerbiaandMontenegro_, Country::Zaire, Country::Zambia, Country::Zimbabwe, Country::Armenia, Country::Azerbaijan, Country::Belarus, Country::BosniaandHerzegovina, Country::ClippertonIsland, Country::Croatia, Country::Estonia, Country::Georgia, Country::Kazakhstan, Country::Kyrgyzstan, Country::Latvia, Country::Lithuania, Country::NorthMacedonia, Country::MidwayIslands, Country::Moldova, Country::Montenegro, Country::Russia_, Country::SerbiaAndMontenegro__, Country::Slovenia, Country::Tajikistan, Country::Turkmenistan, Country::Ukraine, Country::Uzbekistan, Country::CzechRepublic, Country::Slovakia, Country::AalandIslands, Country::BonaireSintEustatiusandSaba, Country::CongoDemocraticRepublicOfThe, Country::Curacao, Country::Eritrea, Country::SaintBarthelemy, Country::SaintMartin, Country::Serbia, Country::SintMaarten, Country::SouthSudan, Country::SvalbardandJanMayen, Country::TimorLeste, Country::UnitedStatesMinorOutlyingIslands, Country::PalestineStateof];
const COUNTRY_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282];
pub fn country_value(v: Country) -> u32 { match v {
    Country::Other => 0,
    Country::Afghanistan => 1,
    Country::Albania => 2,
    Country::Algeria => 3,
    Country::AmericanSamoa => 4,
    Country::Andorra => 5,
    Country::Angola => 6,
    Country::Anguilla => 7,
    Country::Antarctica => 8,
    Country::AntiguaandBarbuda => 9,
    Country::Argentina => 10,
    Country::Aruba => 11,
    Country::AshmoreandCartierIslands => 12,
    Country::Australia => 13,
    Country::Austria => 14,
    Country::Bahamas => 15,
    Country::Bahrain => 16,
    Country::BakerIsland => 17,
    Country::Bangladesh => 18,
    Country::Barbados => 19,
    Country::BassasdaIndia => 20,
    Country::Belgium => 21,
    Country::Belize => 22,
    Country::Benin => 23,
    Country::Bermuda => 24,
    Country::Bhutan => 25,
    Country::Bolivia => 26,
    Country::Botswana => 27,
    Country::BouvetIsland => 28,
    Country::Brazil => 29,
    Country::BritishIndianOceanTerritory => 30,
    Country::VirginIslandsBritish => 31,
    Country::BruneiDarussalam => 32,
    Country::Bulgaria => 33,
    Country::BurkinaFaso => 34,
    Country::Myanmar => 35,
    Country::Burundi => 36,
    Country::Cambodia => 37,
    Country::Cameroon => 38,
    Country::Canada => 39,
    Country::CaboVerde => 40,
    Country::CaymanIslands => 41,
    Country::CentralAfricanRepublic => 42,
    Country::Chad => 43,
    Country::Chile => 44,
    Country::ChinaPeoplesRepublicof => 45,
    Country::ChristmasIsland => 46,
    Country::Cocos => 47,
    Country::Colombia => 48,
    Country::Comoros => 49,
    Country::Congo => 50,
    Country::CookIslands => 51,
    Country::CoralSeaIslands => 52,
    Country::CostaRica => 53,
    Country::Cuba => 54,
    Country::Cyprus => 55,
    Country::Czechoslovakia => 56,
    Country::Denmark => 57,
    Country::Djibouti => 58,
    Country::Dominica => 59,
    Country::DominicanRepublic => 60,
    Country::Ecuador => 61,
    Country::Egypt => 62,
    Country::ElSalvador => 63,
    Country::EquatorialGuinea => 64,
    Country::Ethiopia => 65,
    Country::EuropaIsland => 66,
    Country::FalklandIslands => 67,
    Country::FaroeIslands => 68,
    Country::Fiji => 69,
    Country::Finland => 70,
    Country::France => 71,
    Country::FrenchGuiana => 72,
    Country::FrenchPolynesia => 73,
    Country::FrenchSouthernTerritories => 74,
    Country::Gabon => 75,
    Country::GambiaThe => 76,
    Country::GazaStrip => 77,
    Country::Germany => 78,
    Country::Ghana => 79,
    Country::Gibraltar => 80,
    Country::GloriosoIslands => 81,
    Country::Greece => 82,
    Country::Greenland => 83,
    Country::Grenada => 84,
    Country::Guadeloupe => 85,
    Country::Guam => 86,
    Country::Guatemala => 87,
    Country::Guernsey => 88,
    Country::Guinea => 89,
    Country::GuineaBissau => 90,
    Country::Guyana => 91,
    Country::Haiti => 92,
    Country::HeardIslandandMcDonaldIslands => 93,
    Country::Honduras => 94,
    Country::HongKong => 95,
    Country::HowlandIsland => 96,
    Country::Hungary => 97,
    Country::Iceland => 98,
    Country::India => 99,
    Country::Indonesia => 100,
    Country::Iran => 101,
    Country::Iraq => 102,
    Country::Ireland => 104,
    Country::Israel => 105,
    Country::Italy => 106,
    Country::CotedIvoire => 107,
    Country::Jamaica => 108,
    Country::JanMayen => 109,
    Country::Japan => 110,
    Country::JarvisIsland => 111,
    Country::Jersey => 112,
    Country::JohnstonAtoll => 113,
    Country::Jordan => 114,
    Country::JuandeNovaIsland => 115,
    Country::Kenya => 116,
    Country::KingmanReef => 117,
    Country::Kiribati => 118,
    Country::KoreaDemocraticPeoplesRepublicOf => 119,
    Country::KoreaRepublicOf => 120,
    Country::Kuwait => 121,
    Country::LaoPeoplesDemocraticRepublic => 122,
    Country::Lebanon => 123,
    Country::Lesotho => 124,
    Country::Liberia => 125,
    Country::Libya => 126,
    Country::Liechtenstein => 127,
    Country::Luxembourg => 128,
    Country::Madagascar => 129,
    Country::Macao => 130,
    Country::Malawi => 131,
    Country::Malaysia => 132,
    Country::Maldives => 133,
    Country::Mali => 134,
    Country::Malta => 135,
    Country::IsleofMan => 136,
    Country::MarshallIslands => 137,
    Country::Martinique => 138,
    Country::Mauritania => 139,
    Country::Mauritius => 140,
    Country::Mayotte => 141,
    Country::Mexico => 142,
    Country::Micronesia => 143,
    Country::Monaco => 144,
    Country::Mongolia => 145,
    Country::Montserrat => 146,
    Country::Morocco => 147,
    Country::Mozambique => 148,
    Country::Namibia => 149,
    Country::Nauru => 150,
    Country::NavassaIsland => 151,
    Country::Nepal => 152,
    Country::Netherlands => 153,
    Country::NetherlandsAntilles => 154,
    Country::NewCaledonia => 155,
    Country::NewZealand => 156,
    Country::Nicaragua => 157,
    Country::Niger => 158,
    Country::Nigeria => 159,
    Country::Niue => 160,
    Country::NorfolkIsland => 161,
    Country::NorthernMarianaIslands => 162,
    Country::Norway => 163,
    Country::Oman => 164,
    Country::Pakistan => 165,
    Country::PalmyraAtoll => 166,
    Country::Panama => 168,
    Country::PapuaNewGuinea => 169,
    Country::ParacelIslands => 170,
    Country::Paraguay => 171,
    Country::Peru => 172,
    Country::Philippines => 173,
    Country::Pitcairn => 174,
    Country::Poland => 175,
    Country::Portugal => 176,
    Country::PuertoRico => 177,
    Country::Qatar => 178,
    Country::Reunion => 179,
    Country::Romania => 180,
    Country::Rwanda => 181,
    Country::SaintKittsandNevis => 182,
    Country::SaintHelenaAscensionandTristandaCunha => 183,
    Country::SaintLucia => 184,
    Country::SaintPierreandMiquelon => 185,
    Country::SaintVincentandtheGrenadines => 186,
    Country::SanMarino => 187,
    Country::SaoTomeandPrincipe => 188,
    Country::SaudiArabia => 189,
    Country::Senegal => 190,
    Country::Seychelles => 191,
    Country::SierraLeone => 192,
    Country::Singapore => 193,
    Country::SolomonIslands => 194,
    Country::Somalia => 195,
    Country::SouthGeorgiaandtheSouthSandwichIslands => 196,
    Country::SouthAfrica => 197,
    Country::Spain => 198,
    Country::SpratlyIslands => 199,
    Country::SriLanka => 200,
    Country::Sudan => 201,
    Country::Suriname => 202,
    Country::Svalbard => 203,
    Country::Eswatini => 204,
    Country::Sweden => 205,
    Country::Switzerland => 206,
    Country::SyrianArabRepublic => 207,
    Country::TaiwanProvinceofChina => 208,
    Country::TanzaniaUnitedRepublicof => 209,
    Country::Thailand => 210,
    Country::Togo => 211,
    Country::Tokelau => 212,
    Country::Tonga => 213,
    Country::TrinidadandTobago => 214,
    Country::TromelinIsland => 215,
    Country::Palau => 216,
    Country::Tunisia => 217,
    Country::Turkey => 218,
    Country::TurksandCaicosIslands => 219,
    Country::Tuvalu => 220,
    Country::Uganda => 221,
    Country::Russia => 222,
    Country::UnitedArabEmirates => 223,
    Country::UnitedKingdomofGreatBritainandNorthernIreland => 224,
    Country::UnitedStatesofAmerica => 225,
    Country::Uruguay => 226,
    Country::Vanuatu => 227,
    Country::HolySee => 228,
    Country::Venezuela => 229,
    Country::VietNam => 230,
    Country::VirginIslandsUS => 231,
    Country::WakeIsland => 232,
    Country::WallisandFutuna => 233,
    Country::WesternSahara => 234,
    Country::WestBank => 235,
    Country::Samoa => 236,
    Country::Yemen => 237,
    Country::SerbiaandMontenegro_ => 240,
    Country::Zaire => 241,
    Country::Zambia => 242,
    Country::Zimbabwe => 243,
    Country::Armenia => 244,
    Country::Azerbaijan => 245,
    Country::Belarus => 246,
    Country::BosniaandHerzegovina => 247,
    Country::ClippertonIsland => 248,
    Country::Croatia => 249,
    Country::Estonia => 250,
    Country::Georgia => 251,
    Country::Kazakhstan => 252,
    Country::Kyrgyzstan => 253,
    Country::Latvia => 254,
    Country::Lithuania => 255,
    Country::NorthMacedonia => 256,
    Country::MidwayIslands => 257,
    Country::Moldova => 258,
    Country::Montenegro => 259,
    Country::Russia_ => 260,
    Country::SerbiaAndMontenegro__ => 261,
    Country::Slovenia => 262,
    Country::Tajikistan => 263,
    Country::Turkmenistan => 264,
    Country::Ukraine => 265,
    Country::Uzbekistan => 266,
    Country::CzechRepublic => 267,
    Country::Slovakia => 268,
    Country::AalandIslands => 269,
    Country::BonaireSintEustatiusandSaba => 270,
    Country::CongoDemocraticRepublicOfThe => 271,
    Country::Curacao => 272,
    Country::Eritrea => 273,
    Country::SaintBarthelemy => 274,
    Country::SaintMartin => 275,
    Country::Serbia => 276,
    Country::SintMaarten => 277,
    Country::SouthSudan => 278,
    Country::SvalbardandJanMayen => 279,
    Country::TimorLeste => 280,
    Country::UnitedStatesMinorOutlyingIslands => 281,
    Country::PalestineStateof => 282,
    other => other as u32,
} }
impl Model for Country {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(8, COUNTRY_ALL, COUNTRY_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(country_value(*self), 2, 8); }
}
const DEFIREPULSESHAPE_ALL: &[DEFirePulseShape] = &[DEFirePulseShape::Other, DEFirePulseShape::SquareWave, DEFirePulseShape::ContinuousWave, DEFirePulseShape::Gaussian];
const DEFIREPULSESHAPE_NUM: &[u32] = &[0, 1, 2, 3];
pub fn defirepulseshape_value(v: DEFirePulseShape) -> u32 { match v {
    DEFirePulseShape::Other => 0,
    DEFirePulseShape::SquareWave => 1,
    DEFirePulseShape::ContinuousWave => 2,
    DEFirePulseShape::Gaussian => 3,
    other => other as u32,
} }
impl Model for DEFirePulseShape {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(9, DEFIREPULSESHAPE_ALL, DEFIREPULSESHAPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(defirepulseshape_value(*self), 1, 9); }
}
const DISATTRIBUTEACTIONCODE_ALL: &[DISAttributeActionCode] = &[DISAttributeActionCode::NoStatement];
const DISATTRIBUTEACTIONCODE_NUM: &[u32] = &[0];
pub fn disattributeactioncode_value(v: DISAttributeActionCode) -> u32 { match v {
    DISAttributeActionCode::NoStatement => 0,
    other => other as u32,
} }
impl Model for DISAttributeActionCode {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(10, DISATTRIBUTEACTIONCODE_ALL, DISATTRIBUTEACTIONCODE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(disattributeactioncode_value(*self), 1, 10); }
}
const DISLIVEENTITYSUBPROTOCOLNUMBER_ALL: &[DISLiveEntitySubprotocolNumber] = &[DISLiveEntitySubprotocolNumber::NoSubprotocol];
const DISLIVEENTITYSUBPROTOCOLNUMBER_NUM: &[u32] = &[0];
pub fn disliveentitysubprotocolnumber_value(v: DISLiveEntitySubprotocolNumber) -> u32 { match v {
    DISLiveEntitySubprotocolNumber::NoSubprotocol => 0,
    other => other as u32,
} }
impl Model for DISLiveEntitySubprotocolNumber {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(11, DISLIVEENTITYSUBPROTOCOLNUMBER_ALL, DISLIVEENTITYSUBPROTOCOLNUMBER_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(disliveentitysubprotocolnumber_value(*self), 1, 11); }
}
const DEADRECKONINGALGORITHM_ALL: &[DeadReckoningAlgorithm] = &[DeadReckoningAlgorithm::Other, DeadReckoningAlgorithm::StaticNonmovingEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntity, DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation, DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntity, DeadReckoningAlgorithm::DRMSimilartoFPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRPWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoRVWexceptinBodyCoordinates, DeadReckoningAlgorithm::DRMSimilartoFVWexceptinBodyCoordinates];
const DEADRECKONINGALGORITHM_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn deadreckoningalgorithm_value(v: DeadReckoningAlgorithm) -> u32 { match v {
    DeadReckoningAlgorithm::Other => 0,
    DeadReckoningAlgorithm::StaticNonmovingEntity => 1,
    DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntity => 2,
    DeadReckoningAlgorithm::DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation => 3,
    DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation => 4,
    DeadReckoningAlgorithm::DRMHighSpeedorManeuveringEntity => 5,
    DeadReckoningAlgorithm::DRMSimilartoFPWexceptinBodyCoordinates => 6,
    DeadReckoningAlgorithm::DRMSimilartoRPWexceptinBodyCoordinates => 7,
    DeadReckoningAlgorithm::DRMSimilartoRVWexceptinBodyCoordinates => 8,
    DeadReckoningAlgorithm::DRMSimilartoFVWexceptinBodyCoordinates => 9,
    other => other as u32,
} }
impl Model for DeadReckoningAlgorithm {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(12, DEADRECKONINGALGORITHM_ALL, DEADRECKONINGALGORITHM_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(deadreckoningalgorithm_value(*self), 1, 12); }
}
const DESIGNATORCODE_ALL: &[DesignatorCode] = &[DesignatorCode::Other];
const DESIGNATORCODE_NUM: &[u32] = &[0];
pub fn designatorcode_value(v: DesignatorCode) -> u32 { match v {
    DesignatorCode::Other => 0,
    other => other as u32,
} }
impl Model for DesignatorCode {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(13, DESIGNATORCODE_ALL, DESIGNATORCODE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(designatorcode_value(*self), 2, 13); }
}
const DESIGNATORSYSTEMNAME_ALL: &[DesignatorSystemName] = &[DesignatorSystemName::NotSpecified, DesignatorSystemName::ANAAQ4, DesignatorSystemName::ANAAQ7, DesignatorSystemName::ANAAQ8, DesignatorSystemName::ANAAQ14LANTIRN, DesignatorSystemName::ANAAQ19, DesignatorSystemName::ANAAQ22ASAFIRE, DesignatorSystemName::ANAAQ22BSAFIRELP, DesignatorSystemName::ANAAQ22CStarSAFIREI, DesignatorSystemName::ANAAQ22DBRITEStar, DesignatorSystemName::ANAAQ24DIRCMNemesis, DesignatorSystemName::ANAAQ25LTS, DesignatorSystemName::ANAAQ28LITENINGII, DesignatorSystemName::ANAAQ30, DesignatorSystemName::ANAAQ32, DesignatorSystemName::ANAAQ33Sniper, DesignatorSystemName::ANAAQ37, DesignatorSystemName::ANAAQ38, DesignatorSystemName::ANAAQ40, DesignatorSystemName::ANAAS32, DesignatorSystemName::ANAAS35V, DesignatorSystemName::ANAAS37, DesignatorSystemName::ANAAS38, DesignatorSystemName::ANAAS44, DesignatorSystemName::ANAAS46, DesignatorSystemName::ANAAS49, DesignatorSystemName::ANAAS51, DesignatorSystemName::ANAAS52MTSA, DesignatorSystemName::ANALQ10, DesignatorSystemName::ANASQ228, DesignatorSystemName::ANAVQ25, DesignatorSystemName::ANAVQ26, DesignatorSystemName::ANGVS5, DesignatorSystemName::ANPED1LLDR, DesignatorSystemName::TADSLRFD, DesignatorSystemName::MMSLRFD, DesignatorSystemName::AH1CNITE, DesignatorSystemName::MATES, DesignatorSystemName::TCV115, DesignatorSystemName::TIM, DesignatorSystemName::TMS303, DesignatorSystemName::TMY303, DesignatorSystemName::ALRAD, DesignatorSystemName::RFTDL, DesignatorSystemName::VVLR, DesignatorSystemName::P0705HELL, DesignatorSystemName::P0708PULSE, DesignatorSystemName::HELD, DesignatorSystemName::TYPE105, DesignatorSystemName::TYPE118, DesignatorSystemName::TYPE121, DesignatorSystemName::TYPE126, DesignatorSystemName::TYPE629, DesignatorSystemName::CLDS, DesignatorSystemName::TAV38, DesignatorSystemName::TMV630, DesignatorSystemName::ALTM1020, DesignatorSystemName::ALATS, DesignatorSystemName::DarkStarLAMPS, DesignatorSystemName::GLTDII, DesignatorSystemName::MBTELRF, DesignatorSystemName::MarkVII, DesignatorSystemName::SIREV, DesignatorSystemName::ANAAQ16B, DesignatorSystemName::ANAAQ16DAESOP, DesignatorSystemName::ANAAQ21StarSAFIREIII, DesignatorSystemName::ANAAQ22EBRITEStar, DesignatorSystemName::ANAAQ36StarSAFIREII, DesignatorSystemName::ANAAS38ANiteHawk, DesignatorSystemName::ANAAS38BNiteHawk, DesignatorSystemName::ANAAS44C, DesignatorSystemName::ANAAS53CSP, DesignatorSystemName::ANASQ28ATFLIR, DesignatorSystemName::ANDAS1MTSB, DesignatorSystemName::ANPAQ1LTD, DesignatorSystemName::ANPAQ3MULE, DesignatorSystemName::ANPEQ1SOFLAM, DesignatorSystemName::ANPEQ3, DesignatorSystemName::ANPEQ15ATPIAL, DesignatorSystemName::ANPEQ18IZLID1000P, DesignatorSystemName::ANTVQ2GVLLD, DesignatorSystemName::ANZSQ21EOS, DesignatorSystemName::ANZSQ22EOS, DesignatorSystemName::CIRCM, DesignatorSystemName::Guardian, DesignatorSystemName::IZLID200P, DesignatorSystemName::IZLID1000PW, DesignatorSystemName::MMS, DesignatorSystemName::MTADSPNVSArrowhead, DesignatorSystemName::RBS70, DesignatorSystemName::RBS90, DesignatorSystemName::TADSPNVS, DesignatorSystemName::COLIBRI, DesignatorSystemName::Damocles, DesignatorSystemName::I251Shkval, DesignatorSystemName::KPS53AVEOTS, DesignatorSystemName::StarSAFIRE380, DesignatorSystemName::JANUSTEOS, DesignatorSystemName::LOTHAREOS, DesignatorSystemName::MK46MOD1EOS, DesignatorSystemName::MTK201MEEOS, DesignatorSystemName::ThalesMiradorMk2EOS, DesignatorSystemName::TPN1M4923EOS];
const DESIGNATORSYSTEMNAME_NUM: &[u32] = &[0, 1000, 1100, 1200, 1300, 1400, 1500, 1600, 1700, 1800, 1900, 2000, 2100, 2200, 2300, 2400, 2500, 2600, 2650, 2700, 2800, 2900, 3000, 3100, 3200, 3300, 3400, 3500, 3600, 3700, 4400, 4500, 4600, 4700, 4800, 4900, 5000, 5100, 5200, 5300, 5400, 5500, 5600, 5700, 5800, 6000, 6100, 6200, 6300, 6400, 6500, 6600, 6700, 6800, 6900, 7000, 7100, 7200, 7300, 7400, 7500, 7600, 7700, 7800, 7900, 8000, 8100, 8200, 8300, 8400, 8500, 8600, 8700, 8800, 8900, 9000, 9090, 9100, 9140, 9150, 9200, 9300, 9400, 9500, 9600, 9700, 9800, 9900, 10000, 10100, 10200, 10300, 10400, 10500, 10600, 10700, 10800, 10900, 11000, 11100, 11200, 11300, 11400];
pub fn designatorsystemname_value(v: DesignatorSystemName) -> u32 { match v {
    DesignatorSystemName::NotSpecified => 0,
    DesignatorSystemName::ANAAQ4 => 1000,
    DesignatorSystemName::ANAAQ7 => 1100,
    DesignatorSystemName::ANAAQ8 => 1200,
    DesignatorSystemName::ANAAQ14LANTIRN => 1300,
    DesignatorSystemName::ANAAQ19 => 1400,
    DesignatorSystemName::ANAAQ22ASAFIRE => 1500,
    DesignatorSystemName::ANAAQ22BSAFIRELP => 1600,
    DesignatorSystemName::ANAAQ22CStarSAFIREI => 1700,
    DesignatorSystemName::ANAAQ22DBRITEStar => 1800,
    DesignatorSystemName::ANAAQ24DIRCMNemesis => 1900,
    DesignatorSystemName::ANAAQ25LTS => 2000,
    DesignatorSystemName::ANAAQ28LITENINGII => 2100,
    DesignatorSystemName::ANAAQ30 => 2200,
    DesignatorSystemName::ANAAQ32 => 2300,
    DesignatorSystemName::ANAAQ33Sniper => 2400,
    DesignatorSystemName::ANAAQ37 => 2500,
    DesignatorSystemName::ANAAQ38 => 2600,
    DesignatorSystemName::ANAAQ40 => 2650,
    DesignatorSystemName::ANAAS32 => 2700,
    DesignatorSystemName::ANAAS35V => 2800,
    DesignatorSystemName::ANAAS37 => 2900,
    DesignatorSystemName::ANAAS38 => 3000,
    DesignatorSystemName::ANAAS44 => 3100,
    DesignatorSystemName::ANAAS46 => 3200,
    DesignatorSystemName::ANAAS49 => 3300,
    DesignatorSystemName::ANAAS51 => 3400,
    DesignatorSystemName::ANAAS52MTSA => 3500,
    DesignatorSystemName::ANALQ10 => 3600,
    DesignatorSystemName::ANASQ228 => 3700,
    DesignatorSystemName::ANAVQ25 => 4400,
    DesignatorSystemName::ANAVQ26 => 4500,
    DesignatorSystemName::ANGVS5 => 4600,
    DesignatorSystemName::ANPED1LLDR => 4700,
    DesignatorSystemName::TADSLRFD => 4800,
    DesignatorSystemName::MMSLRFD => 4900,
    DesignatorSystemName::AH1CNITE => 5000,
    DesignatorSystemName::MATES => 5100,
    DesignatorSystemName::TCV115 => 5200,
    DesignatorSystemName::TIM => 5300,
    DesignatorSystemName::TMS303 => 5400,
    DesignatorSystemName::TMY303 => 5500,
    DesignatorSystemName::ALRAD => 5600,
    DesignatorSystemName::RFTDL => 5700,
    DesignatorSystemName::VVLR => 5800,
    DesignatorSystemName::P0705HELL => 6000,
    DesignatorSystemName::P0708PULSE => 6100,
    DesignatorSystemName::HELD => 6200,
    DesignatorSystemName::TYPE105 => 6300,
    DesignatorSystemName::TYPE118 => 6400,
    DesignatorSystemName::TYPE121 => 6500,
    DesignatorSystemName::TYPE126 => 6600,
    DesignatorSystemName::TYPE629 => 6700,
    DesignatorSystemName::CLDS => 6800,
    DesignatorSystemName::TAV38 => 6900,
    DesignatorSystemName::TMV630 => 7000,
    DesignatorSystemName::ALTM1020 => 7100,
    DesignatorSystemName::ALATS => 7200,
    DesignatorSystemName::DarkStarLAMPS => 7300,
    DesignatorSystemName::GLTDII => 7400,
    DesignatorSystemName::MBTELRF => 7500,
    DesignatorSystemName::MarkVII => 7600,
    DesignatorSystemName::SIREV => 7700,
    DesignatorSystemName::ANAAQ16B => 7800,
    DesignatorSystemName::ANAAQ16DAESOP => 7900,
    DesignatorSystemName::ANAAQ21StarSAFIREIII => 8000,
    DesignatorSystemName::ANAAQ22EBRITEStar => 8100,
    DesignatorSystemName::ANAAQ36StarSAFIREII => 8200,
    DesignatorSystemName::ANAAS38ANiteHawk => 8300,
    DesignatorSystemName::ANAAS38BNiteHawk => 8400,
    DesignatorSystemName::ANAAS44C => 8500,
    DesignatorSystemName::ANAAS53CSP => 8600,
    DesignatorSystemName::ANASQ28ATFLIR => 8700,
    DesignatorSystemName::ANDAS1MTSB => 8800,
    DesignatorSystemName::ANPAQ1LTD => 8900,
    DesignatorSystemName::ANPAQ3MULE => 9000,
    DesignatorSystemName::ANPEQ1SOFLAM => 9090,
    DesignatorSystemName::ANPEQ3 => 9100,
    DesignatorSystemName::ANPEQ15ATPIAL => 9140,
    DesignatorSystemName::ANPEQ18IZLID1000P => 9150,
    DesignatorSystemName::ANTVQ2GVLLD => 9200,
    DesignatorSystemName::ANZSQ21EOS => 9300,
    DesignatorSystemName::ANZSQ22EOS => 9400,
    DesignatorSystemName::CIRCM => 9500,
    DesignatorSystemName::Guardian => 9600,
    DesignatorSystemName::IZLID200P => 9700,
    DesignatorSystemName::IZLID1000PW => 9800,
    DesignatorSystemName::MMS => 9900,
    DesignatorSystemName::MTADSPNVSArrowhead => 10000,
    DesignatorSystemName::RBS70 => 10100,
    DesignatorSystemName::RBS90 => 10200,
    DesignatorSystemName::TADSPNVS => 10300,
    DesignatorSystemName::COLIBRI => 10400,
    DesignatorSystemName::Damocles => 10500,
    DesignatorSystemName::I251Shkval => 10600,
    DesignatorSystemName::KPS53AVEOTS => 10700,
    DesignatorSystemName::StarSAFIRE380 => 10800,
    DesignatorSystemName::JANUSTEOS => 10900,
    DesignatorSystemName::LOTHAREOS => 11000,
    DesignatorSystemName::MK46MOD1EOS => 11100,
    DesignatorSystemName::MTK201MEEOS => 11200,
    DesignatorSystemName::ThalesMiradorMk2EOS => 11300,
    DesignatorSystemName::TPN1M4923EOS => 11400,
    other => other as u32,
} }
impl Model for DesignatorSystemName {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(14, DESIGNATORSYSTEMNAME_ALL, DESIGNATORSYSTEMNAME_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(designatorsystemname_value(*self), 2, 14); }
}
const DETONATIONRESULT_ALL: &[DetonationResult] = &[DetonationResult::Other, DetonationResult::EntityImpact, DetonationResult::EntityProximateDetonation, DetonationResult::GroundImpact, DetonationResult::GroundProximateDetonation, DetonationResult::Detonation, DetonationResult::NoneorNoDetonation, DetonationResult::HEhitsmall, DetonationResult::HEhitmedium, DetonationResult::HEhitlarge, DetonationResult::Armorpiercinghit, DetonationResult::Dirtblastsmall, DetonationResult::Dirtblastmedium, DetonationResult::Dirtblastlarge, DetonationResult::Waterblastsmall, DetonationResult::Waterblastmedium, DetonationResult::Waterblastlarge, DetonationResult::Airhit, DetonationResult::Buildinghitsmall, DetonationResult::Buildinghitmedium, DetonationResult::Buildinghitlarge, DetonationResult::Mineclearinglinecharge, DetonationResult::Environmentobjectimpact, DetonationResult::Environmentobjectproximatedetonation, DetonationResult::WaterImpact, DetonationResult::AirBurst, DetonationResult::Killwithfragmenttype1, DetonationResult::Killwithfragmenttype2, DetonationResult::Killwithfragmenttype3, DetonationResult::Killwithfragmenttype1afterflyoutfailure, DetonationResult::Killwithfragmenttype2afterflyoutfailure, DetonationResult::Missduetoflyoutfailure, DetonationResult::Missduetoendgamefailure, DetonationResult::Missduetoflyoutandendgamefailure];
const DETONATIONRESULT_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33];
pub fn detonationresult_value(v: DetonationResult) -> u32 { match v {
    DetonationResult::Other => 0,
    DetonationResult::EntityImpact => 1,
    DetonationResult::EntityProximateDetonation => 2,
    DetonationResult::GroundImpact => 3,
    DetonationResult::GroundProximateDetonation => 4,
    DetonationResult::Detonation => 5,
    DetonationResult::NoneorNoDetonation => 6,
    DetonationResult::HEhitsmall => 7,
    DetonationResult::HEhitmedium => 8,
    DetonationResult::HEhitlarge => 9,
    DetonationResult::Armorpiercinghit => 10,
    DetonationResult::Dirtblastsmall => 11,
    DetonationResult::Dirtblastmedium => 12,
    DetonationResult::Dirtblastlarge => 13,
    DetonationResult::Waterblastsmall => 14,
    DetonationResult::Waterblastmedium => 15,
    DetonationResult::Waterblastlarge => 16,
    DetonationResult::Airhit => 17,
    DetonationResult::Buildinghitsmall => 18,
    DetonationResult::Buildinghitmedium => 19,
    DetonationResult::Buildinghitlarge => 20,
    DetonationResult::Mineclearinglinecharge => 21,
    DetonationResult::Environmentobjectimpact => 22,
    DetonationResult::Environmentobjectproximatedetonation => 23,
    DetonationResult::WaterImpact => 24,
    DetonationResult::AirBurst => 25,
    DetonationResult::Killwithfragmenttype1 => 26,
    DetonationResult::Killwithfragmenttype2 => 27,
    DetonationResult::Killwithfragmenttype3 => 28,
    DetonationResult::Killwithfragmenttype1afterflyoutfailure => 29,
    DetonationResult::Killwithfragmenttype2afterflyoutfailure => 30,
    DetonationResult::Missduetoflyoutfailure => 31,
    DetonationResult::Missduetoendgamefailure => 32,
    DetonationResult::Missduetoflyoutandendgamefailure => 33,
    other => other as u32,
} }
impl Model for DetonationResult {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(15, DETONATIONRESULT_ALL, DETONATIONRESULT_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(detonationresult_value(*self), 1, 15); }
}
const EEATTRIBUTESTATEINDICATOR_ALL: &[EEAttributeStateIndicator] = &[EEAttributeStateIndicator::HeartbeatUpdate, EEAttributeStateIndicator::ChangedData, EEAttributeStateIndicator::HasCeased];
const EEATTRIBUTESTATEINDICATOR_NUM: &[u32] = &[0, 1, 2];
pub fn eeattributestateindicator_value(v: EEAttributeStateIndicator) -> u32 { match v {
    EEAttributeStateIndicator::HeartbeatUpdate => 0,
    EEAttributeStateIndicator::ChangedData => 1,
    EEAttributeStateIndicator::HasCeased => 2,
    other => other as u32,
} }
impl Model for EEAttributeStateIndicator {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(16, EEATTRIBUTESTATEINDICATOR_ALL, EEATTRIBUTESTATEINDICATOR_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(eeattributestateindicator_value(*self), 1, 16); }
}
const EMITTERNAME_ALL: &[EmitterName] = &[EmitterName::_12456X, EmitterName::_1L117, EmitterName::_1L121E, EmitterName::_1L250, EmitterName::_1L220U, EmitterName::_1L1221E, EmitterName::_1RL257, EmitterName::_1RL138, EmitterName::_1RL257Jammer, EmitterName::_5N20, EmitterName::_5H62B, EmitterName::_5P10, EmitterName::_5P10E, EmitterName::_5P1001, EmitterName::_5P1001E, EmitterName::_5P1002, EmitterName::_5P1002E, EmitterName::_5P1003, EmitterName::_5P1003E, EmitterName::_5P10EMOD, EmitterName::_621A3, EmitterName::_860F1AL101, EmitterName::_9B1103M2, EmitterName::_1226DECCAMIL, EmitterName::_9B1348, EmitterName::_3KM6, EmitterName::_9KR400, EmitterName::_50N6A, EmitterName::_55G61, EmitterName::_59N6, EmitterName::_5N69, EmitterName::_67N6, EmitterName::_76T6, EmitterName::_77T6ABM, EmitterName::_80K6, EmitterName::_91N6A, EmitterName::_96L6E, EmitterName::_96L6TsP, EmitterName::_9C18M3, EmitterName::_9C36M, EmitterName::_9GR400, EmitterName::_9GR400A, EmitterName::_9GR600, EmitterName::_9GR606, EmitterName::_9LV100, EmitterName::_9LV200TA, EmitterName::_9LV200TV, EmitterName::_9LV200TT, EmitterName::_9LV200MKIII, EmitterName::_9LV326, EmitterName::_9M96E2Seeker, EmitterName::_9S15M2, EmitterName::_9S19M2, EmitterName::_9S19ME, EmitterName::_9S32M, EmitterName::_9S32ME, EmitterName::_9S36E, EmitterName::_9S112, EmitterName::A310Z, EmitterName::A325A, EmitterName::A346Z, EmitterName::A353B, EmitterName::A372A, EmitterName::A372B, EmitterName::A372C, EmitterName::A377A, EmitterName::A377B, EmitterName::A380Z, EmitterName::A381Z, EmitterName::A398Z, EmitterName::A403Z, EmitterName::A409A, EmitterName::A418A, EmitterName::A419Z, EmitterName::A429Z, EmitterName::A432Z, EmitterName::A434Z, EmitterName::AA6CAcrid, EmitterName::AA7CApex, EmitterName::A401A, EmitterName::AA10A, EmitterName::AA10CAlamoC, EmitterName::AA13ArrowSeeker, EmitterName::AAM4BMH, EmitterName::AA300, EmitterName::AA12Seeker, EmitterName::AD4A, EmitterName::ADES, EmitterName::ADS4LRSR, EmitterName::ACR430, EmitterName::Agave, EmitterName::ACSOPRIE, EmitterName::ABD2000, EmitterName::ADACMK1, EmitterName::ADACMK2, EmitterName::ADAR, EmitterName::ADOUR, EmitterName::AGAT9B1348, EmitterName::AdrosKT01AV, EmitterName::Agat9E420, EmitterName::AGM158JASSMSAR, EmitterName::AGM88HARMMMW, EmitterName::AGRION15, EmitterName::AHV7, EmitterName::AHV17, EmitterName::AIMK23, EmitterName::AIDAII, EmitterName::AIM120A, EmitterName::AIM7MSparrow, EmitterName::_1L271, EmitterName::ALA51, EmitterName::AlbatrosMK2, EmitterName::ALT50, EmitterName::ALTAIR, EmitterName::AMAPS717, EmitterName::AMES13MK1, EmitterName::WGU16B, EmitterName::_1L133BoxSpring, EmitterName::_1L133BoxSpringB, EmitterName::AMDR3D, EmitterName::ANASPS502, EmitterName::Anemone, EmitterName::ANRITSUElectricAR30A, EmitterName::AntilopeV, EmitterName::ANAAQ24, EmitterName::ANADM160, EmitterName::AN_ALE50, EmitterName::AN_ALQ76, EmitterName::AN_ALQ99, EmitterName::AN_ALQ99Band4, EmitterName::AN_ALQ99LBT, EmitterName::AN_ALQ100, EmitterName::AN_ALQ101, EmitterName::AN_ALQ119, EmitterName::AN_ALQ122, EmitterName::AN_ALQ126A, EmitterName::AN_ALQ128, EmitterName::AN_ALQ126B, EmitterName::AN_ALQ131, EmitterName::AN_ALQ131BlkII, EmitterName::AN_ALQ135CD, EmitterName::AN_ALQ144A3, EmitterName::AN_ALQ153, EmitterName::AN_ALQ157Jammer, EmitterName::AN_ALQ155, EmitterName::AN_ALQ156, EmitterName::AN_ALQ161A, EmitterName::AN_ALQ161, EmitterName::AN_ALQ162, EmitterName::AN_ALQ164, EmitterName::AN_ALQ165, EmitterName::AN_ALQ187Jammer, EmitterName::AN_ALQ167, EmitterName::AN_ALQ1721, EmitterName::AN_ALQ1722, EmitterName::AN_ALQ1723, EmitterName::AN_ALQ176, EmitterName::AN_ALQ178, EmitterName::AN_ALQ184, EmitterName::AN_ALQ1849, EmitterName::AN_ALQ188, EmitterName::AN_ALQ214, EmitterName::AN_ALR56, EmitterName::AN_ALQ221, EmitterName::AN_ALR69, EmitterName::AN_ALQ211, EmitterName::AN_ALT16A, EmitterName::AN_ALQ173, EmitterName::AN_ALT28, EmitterName::AN_ALR66BJammer, EmitterName::AN_ALT32A, EmitterName::AN_ALQ196, EmitterName::ALQ249NextGenerationJammer, EmitterName::AN_ALQ2401Jammer, EmitterName::AN_ALR66BJammer2, EmitterName::AN_APD10, EmitterName::AN_ALQ213, EmitterName::ALQ214A45Jammer, EmitterName::AN_ALQ218, EmitterName::ANAPG50, EmitterName::ANAPG53, EmitterName::ANAPG59, EmitterName::ANAPG63, EmitterName::ANAPG631, EmitterName::ANAPG632, EmitterName::ANAPG633, EmitterName::ANAPG65, EmitterName::ANAPG66, EmitterName::ANAPG66V, EmitterName::ANAPG66V2, EmitterName::ANAPG67, EmitterName::ANAPG68, EmitterName::ANAPG689, EmitterName::ANAPG70, EmitterName::ANAPG71, EmitterName::ANAPG73, EmitterName::ANAPG77, EmitterName::ANAPG78, EmitterName::ANAPG79, EmitterName::ANAPG80, EmitterName::ANAPG81, EmitterName::ANAPG821, EmitterName::ANAPG83, EmitterName::ANAPG502, EmitterName::ANAPN1, EmitterName::ANAPN22, EmitterName::ANAPN59, EmitterName::ANAPN69, EmitterName::ANAPN81, EmitterName::ANAPN102, EmitterName::ANAPN117, EmitterName::ANAPN118, EmitterName::ANAPN122, EmitterName::ANAPN130, EmitterName::ANAPN131, EmitterName::ANAPN133, EmitterName::ANAPN134, EmitterName::ANAPN141, EmitterName::ANAPN147, EmitterName::ANAPN150, EmitterName::ANAPN153, EmitterName::ANAPN154, EmitterName::ANAPN155, EmitterName::ANAPN159, EmitterName::ANAPN177, EmitterName::ANAPN179, EmitterName::ANAPN169, EmitterName::ANAPN182, EmitterName::ANAPN187, EmitterName::ANAPN190, EmitterName::ANAPN194, EmitterName::ANAPN195, EmitterName::ANAPN198, EmitterName::ANAPN200, EmitterName::ANAPN202, EmitterName::ANAPN215, EmitterName::ANAPN209, EmitterName::ANAPN209D, EmitterName::ANAPN209A, EmitterName::ANAPN215_2, EmitterName::ANAPN217, EmitterName::ANAPN218, EmitterName::ANAPN224, EmitterName::ANAPN227, EmitterName::ANAPN230, EmitterName::ANAPN232, EmitterName::ANAPN237A, EmitterName::ANAPN234, EmitterName::ANAPN235, EmitterName::ANAPN238, EmitterName::ANAPN222, EmitterName::ANAPN239, EmitterName::ANAPN241, EmitterName::ANAPN242, EmitterName::ANAPN243, EmitterName::ANAPN506, EmitterName::ANAPQ72, EmitterName::ANAPQ99, EmitterName::ANAPQ100, EmitterName::ANAPQ102, EmitterName::ANAPQ107, EmitterName::ANAPQ109, EmitterName::ANAPQ113, EmitterName::ANAPQ120, EmitterName::ANAPQ122, EmitterName::ANAPQ126, EmitterName::ANAPQ128, EmitterName::ANAPQ129, EmitterName::ANAPQ148, EmitterName::ANAPQ150A, EmitterName::ANAPQ153, EmitterName::ANAPQ155, EmitterName::ANAPQ159, EmitterName::ANAPQ164, EmitterName::ANAPQ166, EmitterName::ANAPQ170, EmitterName::ANAPQ174, EmitterName::ANAPQ180, EmitterName::ANAPQ181, EmitterName::ANAPQ186, EmitterName::ANAPS15J, EmitterName::ANAPS162, EmitterName::ANAPS31, EmitterName::ANAPS42, EmitterName::ANAPS80, EmitterName::ANAPS88, EmitterName::ANAPS88A, EmitterName::ANAPS94, EmitterName::ANAPS96, EmitterName::ANAPS113, EmitterName::ANAPS115, EmitterName::ANAPS116, EmitterName::ANAPS120, EmitterName::ANAPS121, EmitterName::ANAPS124, EmitterName::ANAPS125, EmitterName::ANAPS127, EmitterName::ANAPS128, EmitterName::ANAPS130, EmitterName::ANAPS133, EmitterName::ANAPS134, EmitterName::ANAPS137, EmitterName::ANAPS1375, EmitterName::ANAPS137B, EmitterName::ANAPS137B5, EmitterName::ANAPS137D5Elta, EmitterName::ANAPS138, EmitterName::ANAPS139, EmitterName::ANAPS143, EmitterName::ANAPS1431, EmitterName::ANAPS143B, EmitterName::ANAPS1433, EmitterName::ANAPS143B3, EmitterName::ANAPS153, EmitterName::ANAPS154, EmitterName::ANAPS150, EmitterName::ANAPS145, EmitterName::ANAPS147, EmitterName::ANAPS149, EmitterName::ANAPS503, EmitterName::ANAPS504, EmitterName::ANAPS705, EmitterName::ANAPW22, EmitterName::ANAPW23, EmitterName::ANAPX6, EmitterName::ANAPX7, EmitterName::ANAPX39, EmitterName::ANAPX64, EmitterName::ANAPX72, EmitterName::ANAPX76, EmitterName::ANAPX78, EmitterName::ANAPX100, EmitterName::ANAPX101, EmitterName::ANAPX113AIFF, EmitterName::ANAPY1, EmitterName::ANAPY2, EmitterName::ANAPY3, EmitterName::ANAPY7, EmitterName::ANAPY8, EmitterName::ANAPY9, EmitterName::ANAPY10, EmitterName::ANARN21, EmitterName::ANARN52, EmitterName::ANARN84, EmitterName::ANARN118, EmitterName::ANARN153V, EmitterName::ANARN153, EmitterName::ANARW73, EmitterName::ANASB1, EmitterName::ANASG21, EmitterName::ANASN137, EmitterName::ANASN128, EmitterName::ANASQ108, EmitterName::ANASQ239, EmitterName::ANAST502, EmitterName::ANAVQ55, EmitterName::ANAWG9, EmitterName::ANBRN1, EmitterName::ANBPS5, EmitterName::ANBPS9, EmitterName::ANBPS15, EmitterName::ANBPS15H, EmitterName::ANBPS15J, EmitterName::ANBPS16, EmitterName::ANBPS162, EmitterName::ANCPN4, EmitterName::ANCPN18, EmitterName::ANCRM30, EmitterName::ANDPW23, EmitterName::ANDSQ26PhoenixMH, EmitterName::ANDSQ28HarpoonMH, EmitterName::ANFPN1, EmitterName::ANFPN28, EmitterName::ANFPN33, EmitterName::ANFPN40, EmitterName::ANFPN62, EmitterName::ANFPN66, EmitterName::ANFPS8, EmitterName::ANFPN67, EmitterName::ANFPS16, EmitterName::ANFPS5, EmitterName::ANFPS18, EmitterName::ANFPS89, EmitterName::ANFPS49, EmitterName::ANFPS117, EmitterName::ANFPS85, EmitterName::ANFPS88, EmitterName::ANFPS113, EmitterName::ANFPS115, EmitterName::ANFPS20R, EmitterName::ANFPS132, EmitterName::ANFPS77, EmitterName::ANFPS41, EmitterName::ANFPS100A, EmitterName::ANFPS103, EmitterName::ANFPS108, EmitterName::ANGPN12, EmitterName::ANFPS124, EmitterName::ANFPS129, EmitterName::ANGPX6, EmitterName::ANGPX8, EmitterName::ANGRN12, EmitterName::ANMPN14K, EmitterName::ANMPN14, EmitterName::ANMPQ10, EmitterName::ANMPN17, EmitterName::ANMPQ3339465761ILL, EmitterName::ANMPQ34485562TA, EmitterName::ANMPQ49, EmitterName::ANMPQ3550TA, EmitterName::ANMPQ50C, EmitterName::ANMPQ3751TT, EmitterName::ANMPQ43, EmitterName::ANMPQ50, EmitterName::ANMPQ53, EmitterName::ANMPQ63, EmitterName::ANMPQ64, EmitterName::ANSLQ32, EmitterName::ANMPQ65, EmitterName::ANSLQ324, EmitterName::ANSLQ32A, EmitterName::ANSPG34, EmitterName::ANMSQ104, EmitterName::ANMPS36, EmitterName::ANSLQ503, EmitterName::ANSPG48MK25MOD3, EmitterName::ANSPG50, EmitterName::ANSPG51, EmitterName::ANPPQ2, EmitterName::ANPPS15, EmitterName::ANPPS5, EmitterName::ANPPS5D, EmitterName::ANSPG51CWITI, EmitterName::ANSPG51FC, EmitterName::ANSPG51CD, EmitterName::ANSPG52, EmitterName::ANSPG53, EmitterName::ANSPG55B, EmitterName::ANSPG60, EmitterName::ANSPG62, EmitterName::ANSPG503, EmitterName::ANSPN4, EmitterName::ANSPN11, EmitterName::ANSPN35, EmitterName::ANSPN41, EmitterName::ANSPN43, EmitterName::ANSPN43A, EmitterName::ANSPN43C, EmitterName::ANSPN46, EmitterName::ANSPQ2, EmitterName::ANSPQ5A, EmitterName::ANSPQ9A, EmitterName::ANSPQ9B, EmitterName::ANSPQ34, EmitterName::ANSPS4, EmitterName::ANSPS5, EmitterName::ANSPS5C, EmitterName::ANSPS6, EmitterName::ANSPS10, EmitterName::ANSPS21, EmitterName::ANSPS28, EmitterName::ANSPS37, EmitterName::ANSPS39A, EmitterName::ANSPS40, EmitterName::ANSPS41, EmitterName::ANSPS48, EmitterName::ANSPS48C, EmitterName::ANSPS48E, EmitterName::ANSPS49, EmitterName::ANSPS491, EmitterName::ANSPS492, EmitterName::ANSPS493, EmitterName::ANSPS494, EmitterName::ANSPS495, EmitterName::ANSPS496, EmitterName::ANSPS497, EmitterName::ANSPS498, EmitterName::ANSPS49A1, EmitterName::ANSPS52, EmitterName::ANSPS53, EmitterName::ANSPS55, EmitterName::ANSPS52C, EmitterName::ANSPS55CS, EmitterName::ANSPS55SS, EmitterName::ANSPS58, EmitterName::ANSPS58C, EmitterName::ANSPS59, EmitterName::ANSPS64, EmitterName::ANSPS649, EmitterName::SPS6412, EmitterName::ANSPS65, EmitterName::ANSPS66, EmitterName::ANSPS67, EmitterName::ANSPS73_1, EmitterName::ANSPS69, EmitterName::ANSPS73_2, EmitterName::ANSPS74, EmitterName::ANSPS88, EmitterName::ANSPS501, EmitterName::ANSPS505, EmitterName::ANSPY1, EmitterName::ANSPY1A, EmitterName::ANSPY1B_1, EmitterName::ANSPY1B_2, EmitterName::ANSPY1D_1, EmitterName::ANSPY1D_2, EmitterName::ANSPY1F, EmitterName::ANSPY3, EmitterName::ANTPN12, EmitterName::ANSPY4, EmitterName::ANTLQ32ARMDecoy, EmitterName::ANTPN17, EmitterName::ANTPN8, EmitterName::ANTPN22, EmitterName::ANTLQ17A, EmitterName::ANTMS1, EmitterName::ANTPN24, EmitterName::ANTPN25, EmitterName::ANTMS2, EmitterName::ANTPN19, EmitterName::ANTPN31, EmitterName::ANTPQ18, EmitterName::ANSPY6, EmitterName::ANTPQ36, EmitterName::ANTPQ37, EmitterName::ANTPQ38, EmitterName::ANTPQ39, EmitterName::ANTPQ47, EmitterName::ANTPS43, EmitterName::ANTPS43E, EmitterName::ANTPQ48, EmitterName::ANTPQ49, EmitterName::ANTPQ46A, EmitterName::ANTPS34, EmitterName::ANTPS59, EmitterName::ANTPS44, EmitterName::ANTPQ50, EmitterName::ANTPS63, EmitterName::ANTPS65, EmitterName::ANTPS701, EmitterName::ANTPS63SS, EmitterName::ANTPS73, EmitterName::ANTPS75, EmitterName::ANTPS77, EmitterName::ANTPS78, EmitterName::ANTPS79, EmitterName::ANTPS703, EmitterName::ANTPX467, EmitterName::ANTPS80, EmitterName::ANTPY2, EmitterName::ANTSQ288, EmitterName::ANULQ6A, EmitterName::ANULQ19, EmitterName::ANULQ21, EmitterName::ANUPN25, EmitterName::ANUPS1, EmitterName::ANUPS2, EmitterName::ANUPS3, EmitterName::ANUPX1, EmitterName::ANUPX5, EmitterName::ANUPX11, EmitterName::ANUPX12, EmitterName::ANUPX17, EmitterName::ANUPX23, EmitterName::ANUSQ1133, EmitterName::ANVPS2, EmitterName::ANPLM3, EmitterName::ANPLM3A, EmitterName::ANPLM4, EmitterName::ANZPY1, EmitterName::ANZPY2MPRTIP, EmitterName::ANZPY3, EmitterName::ANZPY8, EmitterName::AORL1AS, EmitterName::AORL85KTKMTA, EmitterName::APAR, EmitterName::Aparna, EmitterName::APECSII, EmitterName::ApelcoAD77, EmitterName::APG71, EmitterName::APN148, EmitterName::APN227, EmitterName::APQ113, EmitterName::APQ120, EmitterName::APQ148, EmitterName::APS504V3, EmitterName::AQUITAINEII, EmitterName::AR1, EmitterName::AR3D, EmitterName::PlesseyAR5, EmitterName::AR15, EmitterName::AR152, EmitterName::AR320, EmitterName::AR325, EmitterName::AR327, EmitterName::Arbalet52, EmitterName::ARBB31, EmitterName::ARBB33, EmitterName::ARIES, EmitterName::AriesNav, EmitterName::AriesCS, EmitterName::ARGS14E, EmitterName::ARGS31, EmitterName::ARGUS, EmitterName::ARM31, EmitterName::ARECIBO, EmitterName::ARED, EmitterName::ARI5954, EmitterName::ARI5955, EmitterName::ARI5979, EmitterName::ARGSN31, EmitterName::ARGOS10, EmitterName::ARGOS800, EmitterName::ARI5983, EmitterName::ARI5991, EmitterName::ARI5995, EmitterName::ARINC564BNDXKINGRDR1E, EmitterName::ARINC700BNDXKINGRDR1E, EmitterName::ARK1, EmitterName::ARLMMTI, EmitterName::ARMOR, EmitterName::ARSR3, EmitterName::ARS400, EmitterName::ARSR1, EmitterName::ARSR4, EmitterName::ARSR18, EmitterName::ARTHUR, EmitterName::ARTHURMODB, EmitterName::ARTHURMODC, EmitterName::ARTISAN3D, EmitterName::AS2Kipper, EmitterName::AS2KipperMH, EmitterName::AS3YJ83KmmWMH, EmitterName::AS_34KormoranSeeker, EmitterName::AS4Kitchen, EmitterName::AS4KitchenMH, EmitterName::AS5KeltMH, EmitterName::AS6KingfishMH, EmitterName::AS7Kerry, EmitterName::AS7KerryMG, EmitterName::AS15KENTaltimeter, EmitterName::AS17AKryptonSeeker, EmitterName::AS17BKryptonSeeker, EmitterName::AS901, EmitterName::AS901A, EmitterName::ASARS2, EmitterName::ASDEKDD, EmitterName::ASLESHA, EmitterName::ASMGCS, EmitterName::ASMI18X, EmitterName::AspideAAMSAMILL, EmitterName::ASMI3, EmitterName::AselsanMAR, EmitterName::ASR2000, EmitterName::ASR4, EmitterName::ASR4D, EmitterName::ASRO, EmitterName::ASR12_1, EmitterName::ASR22AL, EmitterName::ASR3, EmitterName::ASR5, EmitterName::ASR7, EmitterName::ASR8, EmitterName::ASR9, EmitterName::ASR9000, EmitterName::ASTI, EmitterName::ASR11DASR, EmitterName::ASR12_2, EmitterName::RaytheonASR10SS, EmitterName::ASR23SS, EmitterName::Arabel, EmitterName::ASTRE, EmitterName::AT2SwatterMG, EmitterName::_9K114ShturmMG, EmitterName::ASTOR, EmitterName::ASTRARCI, EmitterName::ATCR22, EmitterName::ATCR22M, EmitterName::ATCR2T, EmitterName::ATCR33, EmitterName::ATCR33KM, EmitterName::ATCR33S, EmitterName::ATCR3T, EmitterName::ATCR44, EmitterName::ATCR44K, EmitterName::Argos73, EmitterName::ATCR44MS, EmitterName::ATCR4T, EmitterName::AtlasElektronkTRSN, EmitterName::ATLAS8600X, EmitterName::Atlas9600M, EmitterName::ATLAS9600X, EmitterName::ATLAS9600S, EmitterName::ATLAS9740VTS, EmitterName::ATLASS, EmitterName::ATR500C, EmitterName::AVG65, EmitterName::AVH7, EmitterName::AVIACM, EmitterName::AVIAD, EmitterName::Aviaconversia, EmitterName::AviaconversiaII, EmitterName::AviaconversiaIII, EmitterName::AVQ20, EmitterName::AVQ21, EmitterName::AVQ30X, EmitterName::AVQ50, EmitterName::AVQ70, EmitterName::AWS5, EmitterName::AWS6, EmitterName::AWS6B300, EmitterName::B597Z, EmitterName::B636Z, EmitterName::BackBoard, EmitterName::BackNetAB, EmitterName::BackTrap, EmitterName::BAESystemsRT1805APN, EmitterName::BAESDASS2000Jammer, EmitterName::BalanceBeam, EmitterName::BALTIKAB, EmitterName::BALTYK, EmitterName::BallEnd, EmitterName::BallGun, EmitterName::BALLPOINT, EmitterName::BandStand, EmitterName::BandStand3, EmitterName::P3537, EmitterName::BARAX, EmitterName::BASIR110D, EmitterName::BassTilt, EmitterName::Badger, EmitterName::BarracudaJammer, EmitterName::BaykalCountermeasuresSuite, EmitterName::Beacon, EmitterName::BeanSticks, EmitterName::BeeHind, EmitterName::BellNipJammer, EmitterName::BellPushJammer, EmitterName::BellCrownA, EmitterName::BellCrownB, EmitterName::BellSquat, EmitterName::BIGBACK, EmitterName::BigBirdABC, EmitterName::BigBirdD, EmitterName::BigBirdDMod, EmitterName::BigBirdE91N6E, EmitterName::BigBulge, EmitterName::BigBulgeA, EmitterName::BigBulgeB, EmitterName::BIGEYE, EmitterName::SNAR10, EmitterName::BIGHEADB, EmitterName::BigMesh, EmitterName::BigNet, EmitterName::_9S15MT, EmitterName::BillFold, EmitterName::BLIGHTER400, EmitterName::BlowpipeMG, EmitterName::BLR, EmitterName::BlueFox, EmitterName::BlueKestrel, EmitterName::BlueVixen, EmitterName::BlueSilk, EmitterName::BlueParrot, EmitterName::BlueOrchid, EmitterName::BMDJG8715, EmitterName::BoatSail, EmitterName::BORA550, EmitterName::BoforsElectronic9LV331, EmitterName::BoforsEricssonSeaGiraffe50HC, EmitterName::BowlMesh, EmitterName::BoxBrick, EmitterName::BoxTrail, EmitterName::BMKG300GJammingPod, EmitterName::BMKG600JammingPod, EmitterName::BMKG800JammingPod, EmitterName::BMKG860186058606, EmitterName::BPS11A, EmitterName::BPS14, EmitterName::BPS15A, EmitterName::BR3440CAX57, EmitterName::BR15TokyoKEIKI, EmitterName::BrahMos, EmitterName::BridgeMaster, EmitterName::BridgeMasterEEPA, EmitterName::BridgeMasterEATAandARPA, EmitterName::BridgeMasterEnaval, EmitterName::BrimstonemmWMH, EmitterName::BreadBin, EmitterName::Asr, EmitterName::BT271, EmitterName::BU304, EmitterName::BX732, EmitterName::BUKMB, EmitterName::BuranD, EmitterName::BUREVISNYK1, EmitterName::BuzzStand, EmitterName::C5AMultiModeRadar, EmitterName::C802AL, EmitterName::CAESAR, EmitterName::Caiman, EmitterName::CakeStand, EmitterName::CalypsoC61, EmitterName::CalypsoC63, EmitterName::CalypsoIi, EmitterName::CalypsoIII, EmitterName::CalypsoIV, EmitterName::CardionCoastal, EmitterName::CastorIi, EmitterName::Castor2JTT, EmitterName::CatHouse, EmitterName::CDR431, EmitterName::CEAFAR, EmitterName::CEAMOUNT, EmitterName::CEAFAR2L, EmitterName::CEROS200, EmitterName::CEROS200CWI, EmitterName::CEATAC, EmitterName::CEAOPS, EmitterName::CerberusIII, EmitterName::CHSSN6, EmitterName::CerberusIV, EmitterName::ChairBlackTT, EmitterName::ChairBlackILL, EmitterName::LEMZ96L6, EmitterName::CheeseBrick, EmitterName::CheeseCake, EmitterName::LeninetzObzorMS, EmitterName::Clamshell, EmitterName::CLC1, EmitterName::CLC2, EmitterName::CLC3, EmitterName::CLR155, EmitterName::COASTWATCHER100, EmitterName::CoastalGiraffe, EmitterName::COBRA, EmitterName::CobraShoe, EmitterName::Colibri, EmitterName::CollinsWXR300, EmitterName::CollinsWXR700X, EmitterName::CollinsTWR850, EmitterName::CollinsDN101, EmitterName::COMET1, EmitterName::CONDORMK2, EmitterName::ConsiliumSelesmarRTM25XIM, EmitterName::ContravesSeaHunterMK4, EmitterName::CornCan, EmitterName::COSMOSKYMED1, EmitterName::CR105RMCA, EmitterName::CREWDuke2, EmitterName::CREWDuke3, EmitterName::CrossBird, EmitterName::CrossDome, EmitterName::CrossLegs, EmitterName::CrossOut, EmitterName::CrossSlot, EmitterName::CrossSword, EmitterName::CrossUp, EmitterName::CrossSwordFC, EmitterName::CrotaleAcquisitionTA, EmitterName::CrotaleNGTA, EmitterName::CrotaleTT, EmitterName::CrotaleMGMissileSystem, EmitterName::CS10TA, EmitterName::CSFVaran, EmitterName::CSSN4MH, EmitterName::CSSC3CCAS1M1M2MH, EmitterName::HY2BMH, EmitterName::CSSC2BHY1AMH, EmitterName::CSSN4Sardine, EmitterName::CSSN8Saccade, EmitterName::CurlStoneB, EmitterName::CWS1, EmitterName::CWS2, EmitterName::CWS3, EmitterName::Cygnus, EmitterName::CylinderHead, EmitterName::Cymbeline, EmitterName::CyranoII, EmitterName::CyranoIV, EmitterName::CyranoIVM, EmitterName::DA0100, EmitterName::DA0500, EmitterName::DA052, EmitterName::DA_08, EmitterName::Dawn, EmitterName::DCR, EmitterName::DeadDuck, EmitterName::DECCA20V909, EmitterName::DECCA20V90S, EmitterName::DECCA45, EmitterName::DECCA50, EmitterName::DECCA71, EmitterName::Decca72, EmitterName::DECCA110, EmitterName::DECCA170, EmitterName::DECCAHF2, EmitterName::DECCA202, EmitterName::DECCAD202, EmitterName::DECCA303, EmitterName::DECCA535, EmitterName::DECCA626, EmitterName::DECCA629, EmitterName::DECCA914, EmitterName::DECCA916, EmitterName::DECCA926, EmitterName::DECCA1070A, EmitterName::Decca1008, EmitterName::DECCA1226Commercial, EmitterName::DECCA1290, EmitterName::DECCA1626, EmitterName::DECCA2070, EmitterName::Decca1630, EmitterName::DECCA2459, EmitterName::DECCAAWS1, EmitterName::DECCAAWS2, EmitterName::DECCAAWS4, EmitterName::DECCAAWS42, EmitterName::DECCAMAR, EmitterName::DECCARM326, EmitterName::DECCARM416, EmitterName::DECCARM970BT, EmitterName::DECCARM914, EmitterName::DF21DSeeker, EmitterName::DECCARM1690, EmitterName::DECCA1690, EmitterName::DECCASuper101MK3, EmitterName::DISS1, EmitterName::DISS7, EmitterName::DISS013, EmitterName::DISS15D, EmitterName::DLD100A, EmitterName::RapierTTDN181, EmitterName::Rapier2000TT, EmitterName::DogEar, EmitterName::DogHouse, EmitterName::DM3, EmitterName::DM3B, EmitterName::DM5, EmitterName::Don2, EmitterName::DonAB2Kay, EmitterName::Donets, EmitterName::Doppler90Series, EmitterName::DownBeat, EmitterName::DR582, EmitterName::DRAA2A, EmitterName::DRAA2B, EmitterName::DRAA9A, EmitterName::DRAA11A, EmitterName::DRAC37B, EmitterName::DRAC38, EmitterName::DRAC39, EmitterName::DRAC39A, EmitterName::DRAC43A, EmitterName::DRAC44A, EmitterName::DragonEye, EmitterName::DragonEye2, EmitterName::DragonEye3, EmitterName::DragonEye4, EmitterName::DRBC30B, EmitterName::DRBC31A, EmitterName::DRBC31D, EmitterName::DRBC32, EmitterName::DRBC32A, EmitterName::DRBC32D, EmitterName::DRBC33A, EmitterName::DRBI10, EmitterName::DRBI23, EmitterName::DRBJ11B, EmitterName::DRBN30, EmitterName::DRBN32, EmitterName::DRBN34, EmitterName::DRBR51, EmitterName::DRBV20A, EmitterName::DRBV20B, EmitterName::DRBV21Mars05, EmitterName::DRBV22, EmitterName::DRBV23, EmitterName::DRBV26C, EmitterName::DRBV26D, EmitterName::DRBV30, EmitterName::DRBV31, EmitterName::DRBV50, EmitterName::DRBV51, EmitterName::DRBV51A, EmitterName::DRBV51B, EmitterName::DRBV51C, EmitterName::DropKick, EmitterName::DRUA31, EmitterName::DrumTilt, EmitterName::DrumTiltA, EmitterName::DrumTiltB, EmitterName::DRUN30A, EmitterName::Dumbo, EmitterName::DWSR92, EmitterName::DWSR93S, EmitterName::EAGLE, EmitterName::EAGLEMk1, EmitterName::EAJPJammingPod, EmitterName::EKCOE390, EmitterName::ECR90, EmitterName::ECR90Jammer, EmitterName::EggCupAB, EmitterName::EISCAT, EmitterName::EKCOE120, EmitterName::EKCO190, EmitterName::Ekran1, EmitterName::ELL8222, EmitterName::ELL8240, EmitterName::ELM2001B, EmitterName::ELM2022, EmitterName::ELM2032, EmitterName::ELM2052, EmitterName::ELM2055, EmitterName::ELM2060, EmitterName::ELM2075, EmitterName::ELM2022U3, EmitterName::ELM2080, EmitterName::ELM2080S, EmitterName::ELM2085, EmitterName::ELM2106, EmitterName::ELM2106NG, EmitterName::ELM2125, EmitterName::ELM2129, EmitterName::ELM2150, EmitterName::ELM2083, EmitterName::ELM2084, EmitterName::ELM2160V1, EmitterName::ELM2084MMR, EmitterName::ELM2112, EmitterName::ELM2200, EmitterName::ELM2133, EmitterName::ELM2205, EmitterName::ELM2207, EmitterName::ELM2215, EmitterName::ELM2216V, EmitterName::ELM2216XH, EmitterName::ELM2218S, EmitterName::ELT361, EmitterName::ELM2258, EmitterName::ELT553, EmitterName::ELT558, EmitterName::ELT572, EmitterName::ELT715, EmitterName::EltaELM2022A, EmitterName::ELTAELM2221GMSTGR, EmitterName::ELM2228S3D, EmitterName::ELM2705, EmitterName::ELM2226, EmitterName::ELM2228X, EmitterName::ELTASIS, EmitterName::ELM2238, EmitterName::ELM2248, EmitterName::ELM2288, EmitterName::ELM2311, EmitterName::ELM2026, EmitterName::ELNA4007, EmitterName::ELT318, EmitterName::ELW2085, EmitterName::ELT521, EmitterName::ELW2090, EmitterName::EnhancedMeteorDetectionRadarEMDR, EmitterName::EMD2900, EmitterName::EMPAR, EmitterName::EndTray, EmitterName::EQ36, EmitterName::EricssonSLAR, EmitterName::Erieye, EmitterName::ESR1, EmitterName::ESR220, EmitterName::ESR380, EmitterName::ESTEREL, EmitterName::ET316, EmitterName::ExocetType, EmitterName::ExocetAL, EmitterName::Exocet1, EmitterName::Exocet1MH, EmitterName::Exocet2, EmitterName::EyeBowl, EmitterName::EyeShield, EmitterName::F332Z, EmitterName::FalconClawTI, EmitterName::FalconClawTT, EmitterName::FALCON, EmitterName::FALCONG, EmitterName::FalconEye, EmitterName::FanSongA, EmitterName::FanSongBFTA, EmitterName::FanSongBFTT, EmitterName::FanSongCETA, EmitterName::FanSongCETT, EmitterName::FanSongCEMG, EmitterName::FanSongBFFMG, EmitterName::FanTail, EmitterName::FAR2117, EmitterName::FAR2827, EmitterName::FAR2837S, EmitterName::FAR3000, EmitterName::FB7Radar, EmitterName::FCR1401, EmitterName::FCS212E, EmitterName::FCS212G, EmitterName::FCS221A, EmitterName::FCS221C, EmitterName::FCS222, EmitterName::FCS231, EmitterName::FCS3, EmitterName::FinCurve, EmitterName::FireCan, EmitterName::FireDish, EmitterName::FireDomeTA, EmitterName::FireDomeTT, EmitterName::FireDomeTI, EmitterName::FireIron, EmitterName::FireWheel, EmitterName::FishBowl, EmitterName::FK3, EmitterName::FLAIR, EmitterName::FlapLid, EmitterName::_30N6E, EmitterName::FlapTruck, EmitterName::FlapWheel, EmitterName::FlashDance, EmitterName::FlashDanceM, EmitterName::P15, EmitterName::_35N6, EmitterName::FlatScreen, EmitterName::FlatSpin, EmitterName::FlatTrackJammer, EmitterName::FlatTwin, EmitterName::FL400, EmitterName::FL1800, EmitterName::FL1800U, EmitterName::FL1800S, EmitterName::Fledermaus, EmitterName::FLYCATCHER, EmitterName::FLYCATCHERMK2, EmitterName::FlyScreen, EmitterName::FlyScreenAB, EmitterName::FlyTrapB, EmitterName::FM90, EmitterName::FogLampMG, EmitterName::FogLampTT, EmitterName::FoilTwo, EmitterName::FootBall, EmitterName::FoxHunter, EmitterName::FoxFireAL, EmitterName::FoxFireILL, EmitterName::FR151A, EmitterName::FurunoFR1500FR1600, EmitterName::FR1505DA, EmitterName::FR1510DS, EmitterName::FR2000, EmitterName::Furuno2855W, EmitterName::FregatMAE, EmitterName::FregatN1, EmitterName::FregatN2, EmitterName::FrontDome, EmitterName::FregatMAE5, EmitterName::FrontDoor, EmitterName::FrontPiece, EmitterName::FurbymmWMH, EmitterName::Furke, EmitterName::Furke2, EmitterName::Furke4, EmitterName::Furuno, EmitterName::Furuno1721, EmitterName::Furuno1934C, EmitterName::Furuno1715, EmitterName::Furuno1730, EmitterName::Furuno1731Mark3, EmitterName::Furuno1832, EmitterName::Furuno1835, EmitterName::Furuno1932, EmitterName::Furuno1935, EmitterName::Furuno701, EmitterName::Furuno1940, EmitterName::Furuno7112, EmitterName::FurunoFR2130S, EmitterName::FurunoFAR2137S, EmitterName::FurunoFAR28X7, EmitterName::FurunoFAR3230S, EmitterName::FR2110, EmitterName::FR2115, EmitterName::FR8062, EmitterName::Furuno2125, EmitterName::Furuno240, EmitterName::Furuno2400, EmitterName::FR801D, EmitterName::Furuno8051, EmitterName::FurunoDRS2D, EmitterName::FurunoDRS4D, EmitterName::FurunoDRS4A, EmitterName::G030A, EmitterName::FurunoDRS6AXClass, EmitterName::DRS4W, EmitterName::GA0100, EmitterName::Gabbiano, EmitterName::Gage, EmitterName::Gaofen3, EmitterName::GAOFEN12, EmitterName::GAPGATE, EmitterName::Gardenia, EmitterName::GarminGMR1224, EmitterName::GarminFantom24, EmitterName::GarminGWX68WeatherRadar, EmitterName::Garpin, EmitterName::GateGuard, EmitterName::GarpunBalE, EmitterName::GBS1, EmitterName::GCA2000, EmitterName::Furuno18321921Series, EmitterName::GEMINIDB, EmitterName::GEMOlympus, EmitterName::GEMSentinel, EmitterName::GEMBX132, EmitterName::GEMSC2050X, EmitterName::GEMSeaEagle200N, EmitterName::GenericInternalJammer, EmitterName::MPDR12, EmitterName::GENX, EmitterName::GepardTT, EmitterName::GERANF, EmitterName::GERFAUT, EmitterName::GFE1, EmitterName::GIRAFFE, EmitterName::GIRAFFE1X, EmitterName::Giraffe40, EmitterName::Giraffe50AT, EmitterName::Giraffe75, EmitterName::GinSlingTA, EmitterName::GinSling, EmitterName::GinSlingMG, EmitterName::GoalKeeper, EmitterName::GoldenDome, EmitterName::GoldenHeart, EmitterName::GoldenRock, EmitterName::GPN22, EmitterName::GPSJ10, EmitterName::GPSJ25, EmitterName::GPSJ40, EmitterName::GPSJ50, EmitterName::GRN9, EmitterName::GRANK, EmitterName::GraveStone, EmitterName::GRAVES, EmitterName::GreenStain, EmitterName::GridBow, EmitterName::GrifoF, EmitterName::_9S32, EmitterName::GRILLSCREEN, EmitterName::Grom2, EmitterName::GROUNDMASTER400, EmitterName::GT4, EmitterName::GRS440, EmitterName::GUARDIAN, EmitterName::Guardsman, EmitterName::RPK2, EmitterName::HRJZ7264AJammer, EmitterName::H025, EmitterName::HADR, EmitterName::HairNet, EmitterName::HalfPlateA, EmitterName::HalfPlateB, EmitterName::HARD, EmitterName::Harpoon, EmitterName::HatBox, EmitterName::HawkScreech, EmitterName::HayPole, EmitterName::HayRick, EmitterName::HeadLightA, EmitterName::HeadLights, EmitterName::HeadLightsC, EmitterName::HeadLightsMGA, EmitterName::HeadLightsMGB, EmitterName::HeadLightsTT, EmitterName::HeadNet, EmitterName::HeartAcheB, EmitterName::HellfiremmWMH, EmitterName::HenEgg, EmitterName::HenHouse, EmitterName::HenNest, EmitterName::HenRoost, EmitterName::Herakles, EmitterName::HF2MG, EmitterName::HGR105, EmitterName::HighBrick, EmitterName::HighFix, EmitterName::HighGuard, EmitterName::HighLarkTI, EmitterName::HighLark1, EmitterName::HighLark2, EmitterName::HighLark4, EmitterName::HighLune, EmitterName::HighPoleAB, EmitterName::HighScoop, EmitterName::_9S19MT, EmitterName::HighSieve, EmitterName::HillBlock, EmitterName::HimalayasCountermeasuresSuite, EmitterName::HG9550, EmitterName::HJ6374, EmitterName::HLDRADAR900, EmitterName::HLJQ520, EmitterName::HN503, EmitterName::HNC03M, EmitterName::HomeTalk, EmitterName::HornSpoon, EmitterName::HotBrick, EmitterName::HotFlash, EmitterName::HotFlash2, EmitterName::IHS6, EmitterName::IRL144MHotShotTA, EmitterName::IRL144MHotShotTT, EmitterName::IRL144MHotShotMG, EmitterName::HPS106, EmitterName::HPS104, EmitterName::HQ9MH, EmitterName::HSR1128, EmitterName::HT233, EmitterName::HQ61, EmitterName::HRJS, EmitterName::IDerbyER, EmitterName::IBIS80, EmitterName::IBIS150, EmitterName::IBIS200, EmitterName::IFFMKXIIAIMSUPX29, EmitterName::Janet, EmitterName::IFFMKXV, EmitterName::IFFINT, EmitterName::JackKnife, EmitterName::IFFTRSP, EmitterName::JMUSICElbitSystemsJammer, EmitterName::JavelinMG, EmitterName::JALQ8, EmitterName::JFPS7, EmitterName::JayBird, EmitterName::JFPS3, EmitterName::JH10, EmitterName::JMPQP7, EmitterName::JL7, EmitterName::JL10B, EmitterName::JMA1576, EmitterName::JRCJMA92526CA, EmitterName::JLP40, EmitterName::JRCJMR9200SeriesX, EmitterName::JRCNMD401, EmitterName::JRCJRM310MK2, EmitterName::JMA1596, EmitterName::JMA7000, EmitterName::JRCJMA7700, EmitterName::JMA5320, EmitterName::JRCJMR92106XC, EmitterName::JERS1, EmitterName::JINDALEE, EmitterName::JRCJMA9900series, EmitterName::JLP40D, EmitterName::JRCJMA5300series, EmitterName::Jupiter, EmitterName::JupiterII, EmitterName::JY8, EmitterName::JY8A, EmitterName::JY9, EmitterName::JY9Modified, EmitterName::JY11EW, EmitterName::JY14, EmitterName::JY14A, EmitterName::JY16, EmitterName::JY24, EmitterName::JAPG1, EmitterName::JAPG2, EmitterName::JY29, EmitterName::JYL1, EmitterName::JYL6, EmitterName::JYL6A, EmitterName::JZQF612, EmitterName::K376Z, EmitterName::K77M, EmitterName::Kaige, EmitterName::KALKAN, EmitterName::KBPAfganit, EmitterName::KALKANII, EmitterName::KelvinHughes2A, EmitterName::KelvinHughes149, EmitterName::Karpaty, EmitterName::Kashtan3JammingSystem, EmitterName::KelvinHughestype1006, EmitterName::KelvinHughestype1007, EmitterName::KelvinHughesType1007FBand, EmitterName::KelvinHughes2007FBand, EmitterName::KelvinHughes2007IBand, EmitterName::KHNucleus5000, EmitterName::KHMANTA, EmitterName::KHNUCLEUS26000, EmitterName::KHNUCLEUS35000, EmitterName::KHNUCLEUS36000A, EmitterName::KHFamily, EmitterName::KelvinHughes6000A, EmitterName::Kh38MAEMH, EmitterName::KG8605A, EmitterName::KH902M, EmitterName::KHOROMK, EmitterName::KHIBINY, EmitterName::KG300E, EmitterName::KHSharpEye, EmitterName::KHSharpEyeB, EmitterName::KHSharpEyeC, EmitterName::KH1700, EmitterName::KingPin, EmitterName::KG300, EmitterName::KiteScreech, EmitterName::KiteScreechA, EmitterName::KiteScreechB, EmitterName::KLC3B, EmitterName::KJ500NanjingRadar, EmitterName::Kivach, EmitterName::KJ500Jammer, EmitterName::KLC1, EmitterName::KLJ1, EmitterName::KLJ3, EmitterName::KLJ4, EmitterName::KLJ4B, EmitterName::KLJ5, EmitterName::KLJ7, EmitterName::KLJ7B, EmitterName::KLJ7A, EmitterName::KnifeRest, EmitterName::P10, EmitterName::KNIFERESTC, EmitterName::KodenMD3730, EmitterName::KJ2000, EmitterName::KODENMDC900, EmitterName::Koopol, EmitterName::KOPYOI, EmitterName::KR75, EmitterName::KRONOS, EmitterName::KREDO1E, EmitterName::Krasukha2, EmitterName::KRONOSGRANDNAVAL, EmitterName::KRM66E, EmitterName::KSASRN, EmitterName::KSATSR, EmitterName::KS1APHASEDARRAY, EmitterName::KS418, EmitterName::KS418E, EmitterName::KZ100, EmitterName::KZ900, EmitterName::L175V, EmitterName::L3705PresidentSJammer, EmitterName::L415, EmitterName::L88, EmitterName::LAADS, EmitterName::LandFall, EmitterName::LandRollMG, EmitterName::LandRollTA, EmitterName::LandRollTT, EmitterName::LAZUR, EmitterName::Model791A, EmitterName::LAP3000, EmitterName::LC150, EmitterName::LEER3, EmitterName::LegDrive, EmitterName::LeninetzV004, EmitterName::Leningraf, EmitterName::LIANA, EmitterName::LightBulb, EmitterName::LIRAA10, EmitterName::LIROD8, EmitterName::LIRODMKII, EmitterName::LLX05K, EmitterName::LMTNRAI6A, EmitterName::LN55, EmitterName::Ln66, EmitterName::Liman, EmitterName::Liman2, EmitterName::LockheedVigilance, EmitterName::LongBow, EmitterName::LongBrick, EmitterName::LongBull, EmitterName::LongEye, EmitterName::LongHead, EmitterName::LongTalk, EmitterName::LongTrack, EmitterName::LongTrough, EmitterName::LookTwo, EmitterName::LOPAR, EmitterName::LORAN, EmitterName::LowBlowTA, EmitterName::LowBlowTT, EmitterName::LowBlowMG, EmitterName::LowJackTT, EmitterName::LowJackMG, EmitterName::LowSieve, EmitterName::LowTrough, EmitterName::LR66, EmitterName::LRA900, EmitterName::TRS2050, EmitterName::LW01, EmitterName::LW08, EmitterName::M1983FCR, EmitterName::M2240, EmitterName::M44, EmitterName::M401Z, EmitterName::M585Z, EmitterName::M588Z, EmitterName::MA1IFFPortion, EmitterName::MADHACK, EmitterName::MARELD, EmitterName::MAType909, EmitterName::MARCS152, EmitterName::Marconi1810, EmitterName::MarconiCanadaHC75, EmitterName::MarconiS713, EmitterName::MarconiS1802, EmitterName::MarconiS247, EmitterName::MarconiS810, EmitterName::MarconiSA10, EmitterName::MARCONIST801, EmitterName::MarconiST805, EmitterName::Marconitype967, EmitterName::Marconitype968, EmitterName::Marconitype992, EmitterName::Marconisignaaltype1022, EmitterName::Marconisignaaltype910, EmitterName::Marconisignaaltype911, EmitterName::Marconisignaaltype992R, EmitterName::MARTELLO743D, EmitterName::MARTELLOS723A, EmitterName::MASTERA, EmitterName::MBDAFLAADSMJammer, EmitterName::MELCO3, EmitterName::MELODI, EmitterName::MERLIN, EmitterName::Meraj4, EmitterName::NorthropGrummanMESA, EmitterName::MeshBrick, EmitterName::METEOR1500S, EmitterName::METEOR200, EmitterName::METEOR50DX, EmitterName::METEOR300, EmitterName::MeteorBVRAAM, EmitterName::MFR, EmitterName::MFSR210045, EmitterName::MICAMH, EmitterName::MICARF, EmitterName::MineralME, EmitterName::MirageILL, EmitterName::MiysisJammer, EmitterName::MK15, EmitterName::MK15CIWS, EmitterName::MK23, EmitterName::MK23TAS, EmitterName::MK25, EmitterName::Mk25Mod3, EmitterName::Mk25Mod7, EmitterName::MK35M2, EmitterName::MK92, EmitterName::MK92CAS, EmitterName::MK92STIR, EmitterName::MK95, EmitterName::MKS818, EmitterName::MLA1, EmitterName::MMAPQ706, EmitterName::MM950, EmitterName::MMAPS705, EmitterName::MMAPS784, EmitterName::MMSPG73, EmitterName::MMSPG74, EmitterName::MMSPG75, EmitterName::MMSPN703, EmitterName::MMSPN730, EmitterName::MMSPN753B, EmitterName::MMSPQ3, EmitterName::MMSPS702, EmitterName::MMSPS768, EmitterName::MMSPS774, EmitterName::MMSPS791, EmitterName::MMSPS794, EmitterName::MMSPS798, EmitterName::MMSR, EmitterName::Model17C, EmitterName::Moon4, EmitterName::MoonPie, EmitterName::MOONCONE, EmitterName::MoonRack, EmitterName::MOONFACE, EmitterName::MMRS, EmitterName::Model360, EmitterName::Model378, EmitterName::Model970, EmitterName::Model974, EmitterName::MONOLITB, EmitterName::Monument, EmitterName::Mouse, EmitterName::MP411ESM, EmitterName::MPDR18S, EmitterName::MPDR18X, EmitterName::MPDR45E, EmitterName::MR2311, EmitterName::MPR, EmitterName::MR2314, EmitterName::MPS1, EmitterName::MR36B, EmitterName::MR231MOD, EmitterName::MR1600, EmitterName::MRR, EmitterName::MR35, EmitterName::MR36, EmitterName::MRL1, EmitterName::MRL4, EmitterName::MRL5, EmitterName::MSAM, EmitterName::MR36A, EmitterName::MSTAR, EmitterName::MT305X, EmitterName::MR10M1E, EmitterName::MR90, EmitterName::MRK411, EmitterName::MR320MTopazV, EmitterName::MSP418K, EmitterName::MuffCob, EmitterName::Mushroom, EmitterName::Mushroom1, EmitterName::Mushroom2, EmitterName::Mushroom3, EmitterName::N23, EmitterName::N011MBars, EmitterName::N011MBarsB, EmitterName::N011MBarsC, EmitterName::N011MBarsR, EmitterName::N035IrbisE, EmitterName::N036Byelka, EmitterName::N25, EmitterName::N920Z, EmitterName::N001V, EmitterName::NACOSRADARPILOTPlatinum, EmitterName::NampoB, EmitterName::NAGIRA, EmitterName::NanjingB, EmitterName::NanjingC, EmitterName::Nayada, EmitterName::NAYADA5M, EmitterName::NAYADA5PV, EmitterName::NEBOM, EmitterName::NeboSVU, EmitterName::Neptun, EmitterName::Nettuno4100, EmitterName::NIKEHERCULESMTR, EmitterName::NIKETT, EmitterName::NorthropGrummanMFEWJammer, EmitterName::NORINCO3D, EmitterName::NJ81E, EmitterName::Normandie, EmitterName::NRJ6A, EmitterName::NOSTRADAMUS, EmitterName::NPG1240, EmitterName::NPG1460, EmitterName::NPG434, EmitterName::NPG630, EmitterName::NPM510, EmitterName::NutCan, EmitterName::NPVegaLiana, EmitterName::NovellaNV1_70, EmitterName::NRBA50, EmitterName::NRBA51, EmitterName::NRBF20A, EmitterName::NRJ5, EmitterName::NS9005, EmitterName::NS100Series, EmitterName::NUR31, EmitterName::NWS3, EmitterName::NysaB, EmitterName::O524A, EmitterName::O580B, EmitterName::O625Z, EmitterName::O626Z, EmitterName::OceanMaster, EmitterName::OceanMaster400, EmitterName::OddGroup, EmitterName::OddLot, EmitterName::OddPair, EmitterName::OddRods, EmitterName::Oka, EmitterName::OFOGH, EmitterName::OFOGH3, EmitterName::OKEAN, EmitterName::OKEANA, EmitterName::OKINXE12C, EmitterName::OKO, EmitterName::OMEGA, EmitterName::OmeraORB32, EmitterName::OMUL, EmitterName::OneEye, EmitterName::OP28, EmitterName::OPRL4, EmitterName::OPRM71, EmitterName::OPS9, EmitterName::OPS11BC, EmitterName::OPS12, EmitterName::OPS14B, EmitterName::OPS14C, EmitterName::OPS16B, EmitterName::OPS18, EmitterName::OPS19, EmitterName::OPS20, EmitterName::OPS22, EmitterName::OPS24, EmitterName::OPS28, EmitterName::OPS28C, EmitterName::OPS39, EmitterName::OPTIMA3_2, EmitterName::OR2, EmitterName::ORB31D, EmitterName::ORB31S, EmitterName::ORB32, EmitterName::ORB42, EmitterName::OrionRtn10X, EmitterName::SurfaceWave, EmitterName::OtomatMK1, EmitterName::OtomatMKIITeseo, EmitterName::OtomatSeriesAL, EmitterName::OwlScreech, EmitterName::P360Z, EmitterName::P14, EmitterName::P180U, EmitterName::P182, EmitterName::PA1660, EmitterName::P18M, EmitterName::P190U, EmitterName::P30, EmitterName::P18MOD, EmitterName::P35M, EmitterName::PAGE, EmitterName::PaintBox, EmitterName::PalmFrond, EmitterName::ModifiedPaintBox, EmitterName::PalmFrondAB, EmitterName::Pandora, EmitterName::PALSAR2, EmitterName::PantsirSMTAR, EmitterName::PAR2, EmitterName::PAR2000, EmitterName::PAR2090C, EmitterName::PAR80, EmitterName::PatHandTT, EmitterName::PatHandMG, EmitterName::PATRIOT, EmitterName::PattyCake, EmitterName::PawnCake, EmitterName::PBR4Rubin, EmitterName::PCS514, EmitterName::PeaSticks, EmitterName::PechoraSC, EmitterName::PeelCone, EmitterName::PeelGroup, EmitterName::PeelGroupA, EmitterName::PeelGroupB, EmitterName::PeelGroupMG, EmitterName::PeelPair, EmitterName::Pelena, EmitterName::PGZ07, EmitterName::Phalanx, EmitterName::PhazotronGukol4, EmitterName::PhazotronZhukAAE, EmitterName::Philips9LV200, EmitterName::Philips9LV331, EmitterName::PhilipsLV223, EmitterName::PhilipsSeaGiraffe50HC, EmitterName::PhimatJammer, EmitterName::PICOSAR, EmitterName::PILOTMK2, EmitterName::PinJib, EmitterName::PinTip, EmitterName::PL11, EmitterName::PL12, EmitterName::PL15, EmitterName::PlankShad, EmitterName::PlankShave, EmitterName::PlankShaveA, EmitterName::PlankShaveB, EmitterName::PlateSteer, EmitterName::PlesseyAWS1, EmitterName::PlesseyAWS2, EmitterName::PlesseyAWS4, EmitterName::PlesseyAWS6, EmitterName::PlesseyRJ, EmitterName::PlesseyType904, EmitterName::Plesseytype996, EmitterName::PlesseyAWS9, EmitterName::PlinthNet, EmitterName::Pluto, EmitterName::PNABRubinDownBeat, EmitterName::POHJANPALO, EmitterName::PolimentK, EmitterName::POLLUX, EmitterName::PotGroup, EmitterName::PotGroupMG, EmitterName::PotGroupTA, EmitterName::PotGroupTT, EmitterName::PorkFist, EmitterName::PorkTrough, EmitterName::PozitivME15P26, EmitterName::PositiveME1_2, EmitterName::PostBow, EmitterName::PostLamp, EmitterName::PotDrum, EmitterName::PotHead, EmitterName::PotShot, EmitterName::PraetorianCountermeasuresSuite, EmitterName::PRIMUS30A, EmitterName::PRIMUS40WXD, EmitterName::Primus400, EmitterName::PRIMUS300SL, EmitterName::Primus500, EmitterName::Primus650, EmitterName::Primus700, EmitterName::PRIMUS800, EmitterName::Primus3000, EmitterName::Primus870, EmitterName::PRORA, EmitterName::PRS2, EmitterName::PRS3Argon2, EmitterName::PRORAPA1660, EmitterName::PS15, EmitterName::PS05A, EmitterName::PS46A, EmitterName::PS70R, EmitterName::PS171R, EmitterName::PS860, EmitterName::PS870, EmitterName::PS890, EmitterName::PSM33, EmitterName::PuffBall, EmitterName::QuadradarVI, EmitterName::QW1A, EmitterName::Phazotron1RS21E, EmitterName::PVS200, EmitterName::PVS2000, EmitterName::R330ZH, EmitterName::R045, EmitterName::R76, EmitterName::R934B, EmitterName::RA20, EmitterName::RA723, EmitterName::R41XXX, EmitterName::RAC3D, EmitterName::RAC30, EmitterName::R423AM, EmitterName::Racal1229, EmitterName::DECCA1230, EmitterName::RacalAC2690BT, EmitterName::RacalDecca1216, EmitterName::RacalDECCA20V909, EmitterName::RacalDecca360, EmitterName::RacalDeccaAC1290, EmitterName::RacalDeccaTM1229, EmitterName::RacalDeccaTM1626, EmitterName::RacalDRBN34A, EmitterName::RADAMHR, EmitterName::Radar24, EmitterName::RADARPILOT1000, EmitterName::RADARPILOT1100, EmitterName::RAJENDRA, EmitterName::RAN7S, EmitterName::RAN10S, EmitterName::RAN11LX, EmitterName::Rani, EmitterName::RAPHAELTH, EmitterName::RapierTA, EmitterName::Rapier2000TA, EmitterName::RapierMG, EmitterName::RASCAR3400C, EmitterName::Rashmi, EmitterName::Rasit, EmitterName::Rasit3190B, EmitterName::RAT31DLM, EmitterName::RAT31DL, EmitterName::RAT31S, EmitterName::RAT8S, EmitterName::RAT31SL, EmitterName::RavenES05, EmitterName::RATAC, EmitterName::RAWL, EmitterName::Rattler, EmitterName::RAWS, EmitterName::RAWL02, EmitterName::Raytheon1220, EmitterName::RAWS03, EmitterName::Raytheon1210xx, EmitterName::Raytheon1302, EmitterName::Raytheon1500, EmitterName::Raytheon1645, EmitterName::Raytheon1650, EmitterName::Raytheon1900, EmitterName::Raytheon2502, EmitterName::RaytheonAnschutzNautoScanNX, EmitterName::RaytheonR41, EmitterName::RaytheonRM10256X, EmitterName::RaytheonSL72, EmitterName::RaytheonTM16506X, EmitterName::RaytheonTM166012S, EmitterName::RAY1220XR, EmitterName::RAY1401, EmitterName::Ray2900, EmitterName::RaymarineRD218, EmitterName::Raypath, EmitterName::RaytheonPathfinderSTmk2, EmitterName::RBE2, EmitterName::RBE2AA, EmitterName::RCT180, EmitterName::RDM, EmitterName::RDM3, EmitterName::RDI, EmitterName::RDY, EmitterName::RDY3, EmitterName::RDS86, EmitterName::RDN72, EmitterName::RDR1A, EmitterName::RDR1E, EmitterName::RDR4A, EmitterName::RDR150, EmitterName::RDR160XD, EmitterName::RDR230HP, EmitterName::RDR1100, EmitterName::RDR1150, EmitterName::RDR1200, EmitterName::RDR1400, EmitterName::RDR1400C, EmitterName::RDR4000_1, EmitterName::RDR4000_2, EmitterName::RDR1500, EmitterName::RiceCake, EmitterName::RDR1600, EmitterName::RDR2000, EmitterName::RDR1700B, EmitterName::Remora, EmitterName::RiceField, EmitterName::REC1A, EmitterName::REC1B, EmitterName::REC1C, EmitterName::ResolveEAS, EmitterName::RiceCupC, EmitterName::REL6E, EmitterName::REC1, EmitterName::RiceBowl, EmitterName::ImprovedReporter, EmitterName::RiceBug, EmitterName::RiceCup, EmitterName::RiceLamp, EmitterName::REVATHI, EmitterName::REZONANS, EmitterName::RGMUGM109B, EmitterName::RGMUGM109EHomingRadar, EmitterName::RicePad, EmitterName::RKL526, EmitterName::RKZ764, EmitterName::RKZ766, EmitterName::RKL165, EmitterName::RKL609, EmitterName::RKL800, EmitterName::RKZ761, EmitterName::RKZ2000, EmitterName::RIS4CA, EmitterName::RL2000, EmitterName::RL41, EmitterName::RIR778, EmitterName::RISAT, EmitterName::RLMS, EmitterName::RimHatESMECMSuite, EmitterName::RiceScoop, EmitterName::RiceScreen, EmitterName::DECCATM1070A, EmitterName::RM370BT, EmitterName::RockwellCollinsFMR200X, EmitterName::RM2312, EmitterName::RM23123, EmitterName::RMT0100A, EmitterName::RN222, EmitterName::ROLAND2, EmitterName::ROLANDBN, EmitterName::ROLANDMG, EmitterName::ROLANDTA, EmitterName::ROLANDTT, EmitterName::ROTODOME, EmitterName::RoundBall, EmitterName::RP379DTiradaD, EmitterName::RP3, EmitterName::RP4G, EmitterName::RoundHouse, EmitterName::RoundHouseB, EmitterName::RPR117, EmitterName::RS0250, EmitterName::RSR210N, EmitterName::RT0250, EmitterName::RTA4100, EmitterName::RTN1A, EmitterName::RTN25X, EmitterName::RTS6400, EmitterName::RubyRake, EmitterName::RumSling, EmitterName::RumSlingRO, EmitterName::RumSlingTT, EmitterName::RV2, EmitterName::RV3, EmitterName::RV5, EmitterName::RV10, EmitterName::RV15M, EmitterName::RV17, EmitterName::RV18, EmitterName::RV21, EmitterName::RV21B, EmitterName::RV25, EmitterName::RV377, EmitterName::RVUM, EmitterName::RWD8, EmitterName::RXN260, EmitterName::RyeHouse, EmitterName::S1810CD, EmitterName::Sahab, EmitterName::Salamandre, EmitterName::SamyungSMR7200, EmitterName::S1850M, EmitterName::S511, EmitterName::S512, EmitterName::S600, EmitterName::S604, EmitterName::S763LANZA3D, EmitterName::S613, EmitterName::S631, EmitterName::S654, EmitterName::S669, EmitterName::SA2Guideline, EmitterName::S244, EmitterName::S711, EmitterName::SA3Goa, EmitterName::SA8GeckoDT, EmitterName::SA12TELARILL, EmitterName::SA23TELIlluminator, EmitterName::SABERM60, EmitterName::Samovar, EmitterName::Sampson, EmitterName::SAN7GadflyTI, EmitterName::SAN11Cads1UN, EmitterName::SaccadeMH, EmitterName::SaltPotAB, EmitterName::SAP14, EmitterName::SAP518, EmitterName::SAP518M, EmitterName::SandBar, EmitterName::SAPechora2MTT, EmitterName::SAR, EmitterName::SATRAPE, EmitterName::SATURNEII, EmitterName::ScanCan, EmitterName::ScanFix, EmitterName::ScanOdd, EmitterName::SCANTER1002, EmitterName::SCANTER2001, EmitterName::SCANTER2002, EmitterName::SCANTER2100, EmitterName::SCANTER4002, EmitterName::SCANTER4100, EmitterName::SCANTER5102, EmitterName::SCANTER5502, EmitterName::SCANTER6000, EmitterName::SCANTER6002, EmitterName::ScanterMil009, EmitterName::ScanThree, EmitterName::SCANTERMILS, EmitterName::ScanterSMR, EmitterName::SCANTER, EmitterName::SCORADS, EmitterName::Scimitar, EmitterName::STAR2000, EmitterName::SCOREBOARD, EmitterName::ScoopPair, EmitterName::ScoupPlate, EmitterName::SCOUT, EmitterName::SCR584, EmitterName::SeaArcher2, EmitterName::SeaBasedXBand, EmitterName::SeaDragon, EmitterName::SeaEagle, EmitterName::SeaEagleSC, EmitterName::SEAFALCON, EmitterName::SeaGiraffeAMB, EmitterName::Seaguard, EmitterName::SeaHawkSHNX12, EmitterName::SeaHunter4MG, EmitterName::SeaHunter4TA, EmitterName::SeaHunter4TT, EmitterName::SeaGull, EmitterName::SeaMaster400, EmitterName::SeaNet, EmitterName::SeaSparrow, EmitterName::SeaSpray, EmitterName::SeaTiger, EmitterName::SeaTigerM, EmitterName::Seastar, EmitterName::Searchwater, EmitterName::Searchwater2000, EmitterName::SEASONDE, EmitterName::SEASPRAY7000E, EmitterName::SeaVue, EmitterName::SeasprayMk3, EmitterName::SeleniaOrion7, EmitterName::Seleniatype912, EmitterName::SelenniaRAN12LX, EmitterName::SeleniaRAN20S, EmitterName::SelenniaRTN10X, EmitterName::SeliniaARP1645, EmitterName::SENTIRM20, EmitterName::SERDAR, EmitterName::SERHAT, EmitterName::Series10CompactSubmarineRadarCSR, EmitterName::SERIES52, EmitterName::SERIES320, EmitterName::SG, EmitterName::SGJ02, EmitterName::SGJ03, EmitterName::SGR10200, EmitterName::SGR10302, EmitterName::SGR104, EmitterName::Shahed129SAR, EmitterName::SHAHINE, EmitterName::SheetBend, EmitterName::SheetCurve, EmitterName::SHIKRA, EmitterName::ShipGlobe, EmitterName::ShipWheel, EmitterName::SGR114, EmitterName::ShoreWalkA, EmitterName::ShortHorn, EmitterName::ShotDome, EmitterName::SideGlobeJN, EmitterName::PRV11, EmitterName::SideWalkA, EmitterName::SignaalDA02, EmitterName::SignaalDA05, EmitterName::SignaalDA08, EmitterName::SignaalDA082LS, EmitterName::SignaalLW04, EmitterName::SignaalLW08, EmitterName::SignaalLWOR, EmitterName::SignaalM45, EmitterName::SignaalMW08, EmitterName::SignaalSMART, EmitterName::SignaalSTING, EmitterName::SignaalSTIR, EmitterName::SignaalSTIR1_8M, EmitterName::SignaalSTIR24M, EmitterName::SignaalWM202, EmitterName::SignaalWM25, EmitterName::SignaalWM27, EmitterName::SignaalWM28, EmitterName::SignaalZW01, EmitterName::SignaalZW06, EmitterName::SignaalZW07, EmitterName::SignaalZW0800, EmitterName::SIMRAD3G, EmitterName::SIMRAD4G, EmitterName::SimradCA54, EmitterName::SIMRADHalo6, EmitterName::SkiPole, EmitterName::SkinHead, EmitterName::SkipSpin, EmitterName::SKYFENDER, EmitterName::SkyWave, EmitterName::SkyguardB, EmitterName::SKYGUARDTA, EmitterName::SKYGUARDTT, EmitterName::SkyguardLR, EmitterName::Skymaster, EmitterName::SkyWatch, EmitterName::SkyRanger, EmitterName::SKYSHADOW, EmitterName::SKYSHIELDTA, EmitterName::SL, EmitterName::SLALQ234, EmitterName::SlapShot, EmitterName::SlapShotG, EmitterName::SLC2, EmitterName::SLC2E, EmitterName::SLC4, EmitterName::SlimNet, EmitterName::SlotBackA, EmitterName::SlotBackILL, EmitterName::SlotBackB, EmitterName::SlotBackIV, EmitterName::SlotBackBTopaz, EmitterName::SlotBackE, EmitterName::SlotBackG, EmitterName::SlotBackVI, EmitterName::SlotRest, EmitterName::SM674AUPM, EmitterName::SMA3RM, EmitterName::SMA3RM20, EmitterName::SMA3RM20ASMG, EmitterName::SMABPS704, EmitterName::SMASPIN749V2, EmitterName::SMASPN703, EmitterName::SMASPN751, EmitterName::SMASPOS748, EmitterName::SMASPQ2, EmitterName::SMASPQ2D, EmitterName::SMASPQ701, EmitterName::SMASPS702, EmitterName::SMAST2OTOMATIIMH, EmitterName::SR47A, EmitterName::SMA718Beacon, EmitterName::SmallFred, EmitterName::SMARTS, EmitterName::SMARTSMk2, EmitterName::SMARTL, EmitterName::SM932, EmitterName::SmogLamp, EmitterName::SnapShot, EmitterName::SnoopDrift, EmitterName::SnoopHalf, EmitterName::SnoopHead, EmitterName::SnoopPair, EmitterName::SnoopPing1, EmitterName::SnoopPlate, EmitterName::SnoopPing, EmitterName::SnoopSlab, EmitterName::SnoopTray, EmitterName::SnoopTray1, EmitterName::SnoopTray2, EmitterName::SNOOPTRAY3, EmitterName::SnoopWatch, EmitterName::_9S18M1, EmitterName::_9S18M1E, EmitterName::SPB7, EmitterName::SnowDrop, EmitterName::SNW10, EmitterName::SO1, EmitterName::SO12, EmitterName::SOACommunist, EmitterName::SO69, EmitterName::SockEye, EmitterName::SOM64, EmitterName::Sopka, EmitterName::Sorbsiya, EmitterName::SorbtsiyaL005, EmitterName::SorbtsiyaL005S, EmitterName::SPADASIR, EmitterName::SPADATT, EmitterName::SparrowILL, EmitterName::SPERRYRASCAR, EmitterName::SPECTRA, EmitterName::SPEAR3MMW, EmitterName::SperryM3, EmitterName::SPERRYVISIONMASTERFT, EmitterName::SPEXER2000, EmitterName::SPG53F, EmitterName::SPG70, EmitterName::SPG74, EmitterName::SPG75, EmitterName::SPG76, EmitterName::SpinScanA, EmitterName::SpinScanB, EmitterName::SpinTrough, EmitterName::SPINODADDAWTR, EmitterName::SPJ40, EmitterName::SplashDrop, EmitterName::SPN2, EmitterName::SPN4, EmitterName::SPN30, EmitterName::SPN35A, EmitterName::SPN41, EmitterName::SPN42, EmitterName::SPN43A, EmitterName::SPN43B, EmitterName::SPN44, EmitterName::SPN46, EmitterName::SPN703, EmitterName::SPN720, EmitterName::SPN7281, EmitterName::SPN748, EmitterName::SPN750, EmitterName::SPO8, EmitterName::SPN753G, EmitterName::SpongeCake, EmitterName::P12, EmitterName::P18SpoonRestA, EmitterName::P18SpoonRestB, EmitterName::P18SpoonRestC, EmitterName::P18MH2, EmitterName::SporkRest, EmitterName::SPQ712, EmitterName::SPR2, EmitterName::SPR51, EmitterName::SPS5FASOL, EmitterName::SPS6, EmitterName::SPS6C, EmitterName::SPS10F, EmitterName::SPS12, EmitterName::SPS22NBUKET, EmitterName::SPS33NBUKET, EmitterName::SPS44NBUKET, EmitterName::SPS55NBUKET, EmitterName::SPS58, EmitterName::SPS62, EmitterName::SPS100K, EmitterName::SPS64, EmitterName::SPS141, EmitterName::SPS142, EmitterName::SPS143, EmitterName::SPS151, EmitterName::SPS152, EmitterName::SPS153, EmitterName::SPS160Geran, EmitterName::SPS161, EmitterName::SPS95K, EmitterName::SPS171Jammer, EmitterName::SPS172Jammer, EmitterName::SPS768, EmitterName::SPS540K, EmitterName::SPS550KMF, EmitterName::SPS774, EmitterName::SPY790, EmitterName::SquareHead, EmitterName::SquarePair, EmitterName::SquareSlot, EmitterName::SquareTie, EmitterName::Shmel, EmitterName::P15M, EmitterName::SquintEye, EmitterName::SQUIRE, EmitterName::SR2410C, EmitterName::SR47BG, EmitterName::SREM5, EmitterName::SRN6, EmitterName::SRN15, EmitterName::SRN206, EmitterName::SRN745, EmitterName::SRO1, EmitterName::SRO2, EmitterName::SSC2BSamletMG, EmitterName::SSN2ABCSSC, EmitterName::SSN2ABCSSC2A3A2MH, EmitterName::SSN2CSeeker, EmitterName::SSN2CDStyx, EmitterName::SSN2CDStyxCDMH, EmitterName::SSN2CStyxAL, EmitterName::SSN2DStyxAL, EmitterName::SSN2SSCSSC18BN, EmitterName::SSN3BSepalAL, EmitterName::SSN3BSepalMH, EmitterName::SSN7Starbright, EmitterName::SSN9Siren, EmitterName::SSN9SirenAL, EmitterName::SSN9SirenMH, EmitterName::SSN10AFL10mmWMH, EmitterName::SSN11Nasr1mmWMH, EmitterName::SSN12SandboxAL, EmitterName::SSN12YJ83JmmWMH, EmitterName::SSN12SandboxMH, EmitterName::SSNX13Shredder, EmitterName::SSN14BSilexAL, EmitterName::SSN19Shipwreck, EmitterName::SSN19ShipwreckAL, EmitterName::SSN19ShipwreckMH, EmitterName::SSN21AL, EmitterName::SSN22Sunburn, EmitterName::SSN22SunburnMH, EmitterName::SSN22SunburnAL, EmitterName::SSN25SwitchbladeMH, EmitterName::SSN26StrobileMMWMH, EmitterName::SSN27SizzlerMH, EmitterName::SSN27ASizzlerAL, EmitterName::STINGEOMk2, EmitterName::STIR1_2EOMk2, EmitterName::STIR2_4HPMk2, EmitterName::StoneCake, EmitterName::STR41, EmitterName::ST858, EmitterName::START1M, EmitterName::STENTOR, EmitterName::StormShadowAHR, EmitterName::STRAIGHTFLUSH, EmitterName::StraightFlushTA, EmitterName::StraightFlushTT, EmitterName::StraightFlushILL, EmitterName::StrikeOut, EmitterName::StrutCurve, EmitterName::StrutPair, EmitterName::StrutPair1, EmitterName::StrutPair2, EmitterName::SunVisor, EmitterName::SUPERDARN, EmitterName::Superfledermaus, EmitterName::Supersearcher, EmitterName::SwiftRod1, EmitterName::SwiftRod2, EmitterName::SYMPHONY, EmitterName::SYNAPSISMk2, EmitterName::SY80, EmitterName::T1166, EmitterName::T1171, EmitterName::T1202, EmitterName::T6004, EmitterName::T6031, EmitterName::T8067, EmitterName::T8068, EmitterName::T8124, EmitterName::T8408, EmitterName::T8911, EmitterName::T8937, EmitterName::T8944, EmitterName::T8987, EmitterName::TA10K, EmitterName::JY11B, EmitterName::TACANSURF, EmitterName::P14_2, EmitterName::TALLKINGB, EmitterName::TALLKINGC, EmitterName::TallMike, EmitterName::TallPath, EmitterName::TDR94, EmitterName::TeaSpoon, EmitterName::TeamPlay, EmitterName::TALISMAN, EmitterName::TeamWork, EmitterName::T1135, EmitterName::TANCANSURF, EmitterName::TECSAR, EmitterName::TERRASARX, EmitterName::TESAR, EmitterName::THAADGBR, EmitterName::ThalesRDY2, EmitterName::ThalesNederlandSignaalAPAR, EmitterName::ThalesScorpionJammer, EmitterName::ThalesVariant, EmitterName::ThalesICMSJammer, EmitterName::ThalesIMEWSJammer, EmitterName::THD225, EmitterName::THD1012, EmitterName::THD1098, EmitterName::THD1213, EmitterName::THD1940, EmitterName::THD1955Palmier, EmitterName::THD5500, EmitterName::ThirdofKhordad, EmitterName::ThinPath, EmitterName::PRV9, EmitterName::PRV16, EmitterName::ThompsonCSFTA10, EmitterName::ThompsonCSFTHD1040Neptune, EmitterName::ThompsonCSFCalypso, EmitterName::ThompsonCSFCASTOR, EmitterName::ThompsonCSFCastorII, EmitterName::ThomsonCSFDomino30, EmitterName::ThompsonCSFDRBC32A, EmitterName::ThompsonCSFDRBJ11DE, EmitterName::ThompsonCSFDRBV15A, EmitterName::ThompsonCSFDRBV15C, EmitterName::ThompsonCSFDRBV22D, EmitterName::ThompsonCSFDRBV23B, EmitterName::ThompsonCSFDRUA33, EmitterName::ThompsonCSFMarsDRVB21A, EmitterName::ThompsonCSFSeaTiger, EmitterName::ThompsonCSFTriton, EmitterName::ThompsonCSFVegawithDRBC32E, EmitterName::ThomsonENR, EmitterName::ThomsonRDI, EmitterName::TierIIPlus, EmitterName::TPS755, EmitterName::TPS830K, EmitterName::TRS2105, EmitterName::TR23K, EmitterName::TR23MR, EmitterName::TRAC2100, EmitterName::TRAC2300, EmitterName::HT223, EmitterName::TRADEX, EmitterName::TRAILXI, EmitterName::TRD1211, EmitterName::TRD1235, EmitterName::TRS2100, EmitterName::TRACNG, EmitterName::TieRods, EmitterName::_36D6, EmitterName::TinTrap, EmitterName::TIRSPONDER, EmitterName::TK25E5, EmitterName::TMKMk2, EmitterName::TMXMk2, EmitterName::ToadStool1, EmitterName::ToadStool2, EmitterName::ToadStool3, EmitterName::ToadStool4, EmitterName::ToadStool5, EmitterName::TokenB, EmitterName::TombStone, EmitterName::Tonson, EmitterName::TopBow, EmitterName::TopDome, EmitterName::TopKnot, EmitterName::TopMesh, EmitterName::TopPair, EmitterName::TopPlate, EmitterName::TopPlateB, EmitterName::TopSail, EmitterName::TYPE208, EmitterName::TopSteer, EmitterName::TopTrough, EmitterName::TornadoGMR, EmitterName::TornadoTFR, EmitterName::ScrumHalfTA, EmitterName::ScrumHalfTT, EmitterName::TORM2TER, EmitterName::ScrumHalfMG, EmitterName::TrackDish, EmitterName::TR47C, EmitterName::TORSOM, EmitterName::TQN2, EmitterName::TrapDoor, EmitterName::TRD1500, EmitterName::TrickShotTAR, EmitterName::TrickShotTER, EmitterName::TRISPONDE, EmitterName::TRML, EmitterName::TRS2215, EmitterName::TRML3D, EmitterName::TRMS, EmitterName::TRS2056, EmitterName::TRS3010, EmitterName::TRS2060, EmitterName::TRS2245, EmitterName::TRS2310, EmitterName::TritonG, EmitterName::TRS22XX, EmitterName::TRS3030, EmitterName::TRS3033, EmitterName::TRS3203, EmitterName::TRS3405, EmitterName::TRS3410, EmitterName::TRS3415, EmitterName::TRS3D, EmitterName::TRS3D16, EmitterName::TRS3D16ES, EmitterName::TRS3D32, EmitterName::TRS4D, EmitterName::TRSC, EmitterName::TRSN, EmitterName::TS4478A, EmitterName::TSE5000, EmitterName::TSR333, EmitterName::TSR793, EmitterName::TubBrick, EmitterName::TubeArm, EmitterName::TW1374, EmitterName::TW1378, EmitterName::TW1446, EmitterName::TwinEyes, EmitterName::TwinPill, EmitterName::TwinScan, EmitterName::TwinScanRo, EmitterName::TwoSpot, EmitterName::Type071LPD, EmitterName::Type212JA, EmitterName::Type221JA, EmitterName::Type223, EmitterName::Type80ASM1, EmitterName::Type120, EmitterName::Type208, EmitterName::Type222, EmitterName::Type226, EmitterName::Type232H, EmitterName::TYPE245, EmitterName::TYPE262, EmitterName::TYPE275, EmitterName::TYPE278, EmitterName::TYPE293, EmitterName::Type341, EmitterName::TYPE313, EmitterName::Type305A, EmitterName::Type334, EmitterName::Type342, EmitterName::TYPE343SUNVISORB, EmitterName::Type344, EmitterName::Type345, EmitterName::Type346, EmitterName::Type349A, EmitterName::TYPE347B, EmitterName::Type347G, EmitterName::Type359, EmitterName::Type352, EmitterName::Type360, EmitterName::Type362ESR1SR47B, EmitterName::Type354, EmitterName::Type366, EmitterName::Type363, EmitterName::Type364, EmitterName::Type404A, EmitterName::Type405, EmitterName::TYPE405J, EmitterName::Type408D, EmitterName::Type517B, EmitterName::Type518, EmitterName::Type589, EmitterName::TYPE651, EmitterName::Type753_1, EmitterName::Type702, EmitterName::Type704, EmitterName::Type753_2, EmitterName::Type756, EmitterName::TYPE713, EmitterName::TYPE714, EmitterName::TYPE702D, EmitterName::TYPE760, EmitterName::Type760, EmitterName::Type815, EmitterName::Type793, EmitterName::Type8A813, EmitterName::TYPE901M, EmitterName::TYPE902, EmitterName::Type902B, EmitterName::TYPE903, EmitterName::TYPE909TI, EmitterName::TYPE909TT, EmitterName::TYPE910, EmitterName::TYPE931, EmitterName::TYPE965, EmitterName::TYPE967, EmitterName::TYPE968, EmitterName::TYPE974, EmitterName::TYPE975, EmitterName::TYPE978, EmitterName::Type981, EmitterName::Type9813, EmitterName::TYPE982, EmitterName::Type984, EmitterName::Type985, EmitterName::TYPE992, EmitterName::TYPE993, EmitterName::TYPE994, EmitterName::Type996, EmitterName::Type997Artisan, EmitterName::TYPE1006_1, EmitterName::TYPE1006_2, EmitterName::TYPE1022, EmitterName::Type1047, EmitterName::Type1048, EmitterName::Type1474, EmitterName::Type1493, EmitterName::ULTRA, EmitterName::UKMK10, EmitterName::UPS220C, EmitterName::UPX110, EmitterName::UPX27, EmitterName::URN20, EmitterName::UTESA, EmitterName::UTEST, EmitterName::URN25, EmitterName::VIGILANT, EmitterName::VitebskL370Jammer, EmitterName::VOLEXIIIIV, EmitterName::VOLGA, EmitterName::VORONEZHDM, EmitterName::VOSTOK, EmitterName::VOSTOKE, EmitterName::VSR, EmitterName::VOSTOK3D, EmitterName::VSTARPT, EmitterName::W160, EmitterName::W1028, EmitterName::W8818, EmitterName::W8838, EmitterName::W8852, EmitterName::WALLBOARD, EmitterName::WallRust, EmitterName::WAS74S, EmitterName::WaspHead, EmitterName::WATCHDOG, EmitterName::WatchGuard, EmitterName::Watchman, EmitterName::WAVESTORM, EmitterName::WATCHMANS, EmitterName::WATCHMANT, EmitterName::WEATHERSCOUT2, EmitterName::WesternElectricMK10, EmitterName::WestinghouseADR4LRSR, EmitterName::WestinghouseElectricSPG50, EmitterName::WestinghouseElectricW120, EmitterName::WestinghouseSPS29C, EmitterName::WestinghouseSPS37, EmitterName::WetEye, EmitterName::WetEye2, EmitterName::WetEyeMod, EmitterName::WF44S, EmitterName::WGU41B, EmitterName::WGU44B, EmitterName::Whiff, EmitterName::WhiffBrick, EmitterName::WhiffFire, EmitterName::WHITEHOUSE, EmitterName::WideMat, EmitterName::WineGlassJammer, EmitterName::WildCard, EmitterName::WILDCAT, EmitterName::WitchEight, EmitterName::WitchFive, EmitterName::WLR, EmitterName::WM2XSeries, EmitterName::WM2XSeriesCAS, EmitterName::WR10X, EmitterName::WR2100, EmitterName::WSR74C, EmitterName::WSR74S, EmitterName::WSR81, EmitterName::WXR700C, EmitterName::WXR2100, EmitterName::WXR2100MSTT, EmitterName::WoodGage, EmitterName::XTAR25, EmitterName::XTAR3D, EmitterName::YAOGAN3, EmitterName::Yaogan29, EmitterName::YardRake, EmitterName::YH96, EmitterName::YewLoop, EmitterName::YITIANADS, EmitterName::YD3, EmitterName::YJ12MH, EmitterName::YJ62MH, EmitterName::YJ82MH, EmitterName::YJ83MH, EmitterName::YLC2, EmitterName::YLC2A, EmitterName::YLC4, EmitterName::YLC6, EmitterName::YLC6M, EmitterName::YLC8, EmitterName::YLC8B, EmitterName::YLC18, EmitterName::YoYo, EmitterName::ZaslonA, EmitterName::ZaslonMultipurpose, EmitterName::ZooPark1, EmitterName::ZPS6, EmitterName::ZOOPARK3, EmitterName::ZD12, EmitterName::ZW06, EmitterName::ANALQ1361, EmitterName::ANALQ1362, EmitterName::ANALQ1363, EmitterName::ANALQ1364, EmitterName::ANALQ1365, EmitterName::ANALQ1622, EmitterName::ANALQ1623, EmitterName::ANALQ1624, EmitterName::ZhukM, EmitterName::ZHUKMAE, EmitterName::ZHUKME, EmitterName::ZHUKMME, EmitterName::ZhukMSE];
const EMITTERNAME_NUM: &[u32] = &[2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 25, 40, 42, 45, 46, 47, 48, 49, 50, 55, 57, 60, 63, 64, 65, 66, 70, 75, 76, 77, 80, 81, 90, 91, 125, 135, 180, 181, 183, 185, 190, 195, 196, 197, 198, 199, 200, 215, 225, 270, 315, 360, 405, 450, 495, 540, 585, 630, 675, 720, 765, 810, 855, 900, 945, 990, 1035, 1070, 1073, 1080, 1081, 1082, 1085, 1090, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1110, 1111, 1113, 1115, 1117, 1118, 1120, 1122, 1123, 1125, 1130, 1150, 1170, 1215, 1216, 1218, 1230, 1240, 1260, 1263, 1264, 1265, 1268, 1270, 1280, 1282, 1288, 1305, 1306, 1350, 1395, 1397, 1398, 1400, 1410, 1440, 1441, 1442, 1485, 1530, 1575, 1585, 1620, 1621, 1622, 1626, 1627, 1628, 1630, 1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641, 1642, 1643, 1644, 1645, 1646, 1647, 1648, 1649, 1650, 1651, 1652, 1653, 1654, 1655, 1656, 1657, 1658, 1659, 1660, 1661, 1662, 1663, 1664, 1665, 1670, 1672, 1680, 1700, 1710, 1755, 1800, 1805, 1807, 1809, 1845, 1870, 1871, 1872, 1880, 1890, 1895, 1935, 1940, 1945, 1960, 1970, 1971, 1972, 1974, 1975, 1976, 1980, 2025, 2070, 2115, 2160, 2205, 2220, 2250, 2295, 2320, 2340, 2385, 2430, 2475, 2476, 2520, 2565, 2610, 2655, 2700, 2745, 2746, 2747, 2748, 2790, 2835, 2880, 2925, 2970, 3015, 3060, 3105, 3106, 3120, 3121, 3122, 3148, 3150, 3152, 3153, 3154, 3155, 3156, 3157, 3158, 3159, 3160, 3161, 3162, 3164, 3166, 3170, 3195, 3240, 3285, 3330, 3375, 3376, 3420, 3465, 3510, 3512, 3555, 3600, 3645, 3690, 3700, 3735, 3770, 3780, 3785, 3788, 3790, 3791, 3794, 3795, 3800, 3810, 3813, 3820, 3825, 3870, 3915, 3916, 3920, 3922, 3958, 3960, 4005, 4050, 4095, 4140, 4185, 4190, 4230, 4275, 4320, 4365, 4410, 4413, 4415, 4420, 4425, 4455, 4460, 4464, 4465, 4466, 4467, 4468, 4475, 4476, 4480, 4482, 4485, 4486, 4489, 4490, 4491, 4500, 4545, 4590, 4635, 4680, 4681, 4725, 4770, 4815, 4816, 4860, 4870, 4900, 4905, 4950, 4952, 4953, 4954, 4955, 4995, 5040, 5085, 5130, 5131, 5165, 5175, 5220, 5265, 5266, 5270, 5280, 5285, 5290, 5300, 5310, 5320, 5325, 5355, 5400, 5401, 5402, 5405, 5406, 5410, 5415, 5420, 5430, 5445, 5490, 5491, 5493, 5494, 5495, 5500, 5502, 5503, 5504, 5505, 5506, 5507, 5508, 5509, 5510, 5511, 5512, 5513, 5514, 5515, 5516, 5520, 5521, 5522, 5525, 5526, 5527, 5528, 5529, 5530, 5535, 5537, 5538, 5539, 5540, 5541, 5545, 5550, 5551, 5555, 5556, 5560, 5565, 5567, 5570, 5571, 5575, 5576, 5577, 5578, 5579, 5580, 5582, 5583, 5584, 5620, 5625, 5670, 5690, 5700, 5705, 5710, 5715, 5760, 5761, 5805, 5850, 5895, 5940, 5985, 5995, 6015, 6025, 6030, 6050, 6075, 6076, 6078, 6085, 6120, 6155, 6165, 6166, 6190, 6210, 6255, 6300, 6345, 6390, 6435, 6480, 6525, 6570, 6615, 6660, 6705, 6750, 6752, 6795, 6796, 6797, 6798, 6799, 6800, 6801, 6802, 6803, 6804, 6840, 6885, 6930, 6945, 6970, 6975, 7020, 7025, 7065, 7110, 7119, 7120, 7155, 7175, 7200, 7201, 7210, 7215, 7216, 7225, 7226, 7230, 7245, 7250, 7252, 7253, 7260, 7261, 7265, 7266, 7267, 7268, 7269, 7270, 7271, 7272, 7273, 7274, 7275, 7276, 7277, 7278, 7279, 7280, 7281, 7295, 7300, 7301, 7302, 7303, 7305, 7310, 7311, 7312, 7313, 7314, 7315, 7316, 7317, 7320, 7321, 7322, 7323, 7324, 7325, 7326, 7327, 7328, 7329, 7330, 7331, 7333, 7334, 7335, 7340, 7345, 7380, 7425, 7426, 7427, 7470, 7515, 7560, 7605, 7650, 7695, 7700, 7740, 7750, 7751, 7752, 7753, 7754, 7755, 7760, 7761, 7762, 7765, 7770, 7780, 7785, 7830, 7875, 7920, 7965, 8010, 8055, 8100, 8102, 8103, 8105, 8112, 8113, 8114, 8115, 8118, 8120, 8121, 8122, 8123, 8126, 8127, 8128, 8134, 8135, 8140, 8145, 8150, 8160, 8190, 8235, 8280, 8281, 8282, 8283, 8284, 8285, 8290, 8325, 8370, 8375, 8378, 8379, 8380, 8381, 8382, 8384, 8390, 8395, 8400, 8405, 8410, 8415, 8460, 8470, 8480, 8505, 8550, 8595, 8640, 8685, 8730, 8735, 8736, 8737, 8750, 8751, 8755, 8756, 8757, 8758, 8759, 8760, 8761, 8762, 8771, 8772, 8773, 8775, 8776, 8778, 8779, 8780, 8782, 8785, 8790, 8791, 8792, 8793, 8795, 8812, 8816, 8818, 8819, 8820, 8824, 8825, 8826, 8830, 8831, 8832, 8840, 8845, 8846, 8847, 8848, 8849, 8850, 8851, 8852, 8865, 8866, 8867, 8868, 8869, 8870, 8871, 8880, 8910, 8955, 8980, 8985, 8990, 8993, 8995, 9000, 9005, 9045, 9075, 9090, 9135, 9180, 9185, 9200, 9205, 9215, 9225, 9270, 9280, 9281, 9285, 9300, 9310, 9315, 9360, 9370, 9405, 9406, 9450, 9475, 9485, 9495, 9505, 9510, 9530, 9540, 9585, 9630, 9638, 9639, 9640, 9642, 9643, 9645, 9659, 9660, 9661, 9662, 9675, 9720, 9765, 9775, 9780, 9781, 9810, 9855, 9885, 9900, 9903, 9905, 9920, 9930, 9933, 9935, 9945, 9990, 10035, 10057, 10080, 10090, 10125, 10170, 10215, 10260, 10305, 10308, 10310, 10312, 10315, 10350, 10395, 10440, 10450, 10485, 10500, 10510, 10511, 10512, 10513, 10520, 10530, 10540, 10575, 10595, 10620, 10630, 10642, 10650, 10665, 10710, 10711, 10740, 10755, 10800, 10845, 10846, 10890, 10891, 10892, 10895, 10935, 10940, 10980, 10985, 10987, 10988, 10989, 10990, 10991, 10992, 10993, 10994, 10995, 10996, 11000, 11010, 11020, 11025, 11030, 11070, 11115, 11117, 11118, 11119, 11120, 11123, 11125, 11130, 11133, 11137, 11155, 11160, 11165, 11205, 11230, 11235, 11240, 11250, 11260, 11265, 11270, 11280, 11290, 11295, 11340, 11385, 11430, 11475, 11520, 11565, 11610, 11655, 11660, 11665, 11700, 11715, 11725, 11735, 11745, 11748, 11790, 11800, 11810, 11825, 11830, 11835, 11840, 11860, 11880, 11902, 11925, 11970, 11975, 12010, 12015, 12016, 12018, 12060, 12090, 12105, 12110, 12111, 12150, 12195, 12196, 12197, 12240, 12285, 12292, 12330, 12375, 12420, 12430, 12465, 12510, 12555, 12600, 12610, 12615, 12616, 12645, 12655, 12690, 12691, 12694, 12735, 12780, 12782, 12785, 12787, 12800, 12805, 12825, 12850, 12870, 12875, 12915, 12916, 12960, 13005, 13006, 13007, 13015, 13020, 13050, 13055, 13095, 13140, 13141, 13142, 13143, 13185, 13230, 13275, 13280, 13320, 13360, 13365, 13410, 13415, 13420, 13450, 13452, 13455, 13456, 13460, 13465, 13477, 13480, 13481, 13485, 13500, 13545, 13546, 13585, 13590, 13635, 13680, 13725, 13770, 13815, 13860, 13905, 13915, 13950, 13994, 13995, 14020, 14040, 14041, 14085, 14086, 14130, 14131, 14175, 14220, 14265, 14310, 14355, 14400, 14445, 14490, 14535, 14545, 14560, 14580, 14583, 14585, 14586, 14587, 14588, 14590, 14600, 14601, 14625, 14640, 14660, 14670, 14677, 14710, 14713, 14715, 14725, 14726, 14727, 14728, 14730, 14735, 14736, 14737, 14738, 14739, 14740, 14741, 14742, 14743, 14744, 14745, 14746, 14747, 14748, 14749, 14750, 14751, 14755, 14760, 14765, 14770, 14772, 14775, 14776, 14777, 14779, 14780, 14785, 14790, 14800, 14805, 14806, 14807, 14808, 14809, 14810, 14811, 14815, 14820, 14821, 14822, 14830, 14831, 14832, 14833, 14835, 14845, 14850, 14851, 14895, 14896, 14897, 14898, 14900, 14901, 14902, 14903, 14905, 14935, 14936, 14940, 14985, 15030, 15075, 15120, 15140, 15155, 15156, 15160, 15161, 15163, 15165, 15200, 15210, 15220, 15230, 15240, 15255, 15300, 15301, 15302, 15303, 15304, 15305, 15310, 15312, 15313, 15315, 15317, 15318, 15319, 15320, 15345, 15390, 15435, 15470, 15475, 15480, 15525, 15570, 15615, 15620, 15650, 15660, 15661, 15705, 15750, 15795, 15800, 15840, 15842, 15885, 15930, 15970, 15975, 15980, 15985, 15990, 16000, 16020, 16030, 16035, 16065, 16110, 16155, 16160, 16200, 16245, 16290, 16300, 16335, 16380, 16390, 16400, 16405, 16410, 16412, 16420, 16421, 16422, 16423, 16424, 16425, 16426, 16470, 16515, 16520, 16550, 16552, 16554, 16560, 16561, 16564, 16565, 16580, 16581, 16585, 16587, 16590, 16596, 16605, 16606, 16650, 16652, 16654, 16655, 16658, 16660, 16662, 16663, 16670, 16690, 16695, 16725, 16730, 16732, 16733, 16734, 16735, 16736, 16737, 16740, 16750, 16785, 16787, 16789, 16790, 16800, 16815, 16820, 16825, 16830, 16833, 16835, 16840, 16850, 16858, 16870, 16871, 16872, 16875, 16876, 16877, 16879, 16880, 16881, 16884, 16888, 16890, 16895, 16900, 16903, 16905, 16908, 16912, 16915, 16920, 16925, 16930, 16935, 16940, 16942, 16945, 16946, 16947, 16948, 16949, 16950, 16951, 16960, 16963, 16965, 17010, 17016, 17025, 17027, 17029, 17030, 17031, 17032, 17050, 17055, 17070, 17075, 17079, 17080, 17100, 17145, 17190, 17220, 17225, 17230, 17235, 17250, 17255, 17280, 17325, 17370, 17415, 17460, 17505, 17550, 17572, 17590, 17595, 17640, 17685, 17730, 17732, 17735, 17745, 17775, 17820, 17842, 17865, 17910, 17955, 18000, 18045, 18090, 18135, 18150, 18180, 18185, 18189, 18190, 18193, 18194, 18195, 18200, 18201, 18225, 18270, 18280, 18315, 18316, 18318, 18320, 18325, 18330, 18331, 18332, 18339, 18340, 18348, 18350, 18351, 18352, 18353, 18355, 18357, 18360, 18400, 18405, 18406, 18407, 18408, 18409, 18410, 18445, 18449, 18450, 18451, 18452, 18453, 18454, 18455, 18456, 18457, 18458, 18459, 18460, 18461, 18462, 18464, 18465, 18466, 18467, 18468, 18469, 18470, 18471, 18475, 18495, 18540, 18550, 18551, 18555, 18556, 18557, 18560, 18561, 18565, 18570, 18571, 18572, 18575, 18578, 18580, 18582, 18583, 18585, 18586, 18600, 18610, 18611, 18615, 18630, 18675, 18700, 18710, 18720, 18765, 18766, 18767, 18768, 18770, 18774, 18775, 18776, 18777, 18780, 18781, 18782, 18784, 18785, 18786, 18787, 18789, 18790, 18791, 18792, 18795, 18797, 18805, 18810, 18855, 18900, 18930, 18944, 18945, 18946, 18947, 18948, 18950, 18951, 18952, 18955, 18960, 18961, 18962, 18990, 19035, 19037, 19039, 19040, 19041, 19042, 19045, 19050, 19051, 19052, 19053, 19054, 19060, 19080, 19125, 19127, 19129, 19130, 19131, 19132, 19140, 19142, 19143, 19145, 19150, 19170, 19215, 19260, 19305, 19306, 19307, 19309, 19310, 19320, 19330, 19340, 19350, 19370, 19395, 19396, 19397, 19398, 19399, 19400, 19440, 19485, 19500, 19505, 19520, 19530, 19575, 19620, 19665, 19710, 19755, 19800, 19845, 19890, 19920, 19935, 19950, 19955, 19960, 19970, 19971, 19980, 20025, 20029, 20030, 20040, 20060, 20070, 20090, 20115, 20160, 20205, 20250, 20295, 20340, 20350, 20360, 20385, 20420, 20430, 20475, 20495, 20520, 20530, 20565, 20585, 20589, 20590, 20610, 20655, 20700, 20745, 20790, 20835, 20880, 20890, 20895, 20897, 20898, 20915, 20917, 20918, 20919, 20920, 20925, 20927, 20929, 20930, 20931, 20933, 20935, 20940, 20942, 20943, 20945, 20950, 20955, 20969, 20970, 21015, 21060, 21105, 21110, 21130, 21150, 21195, 21240, 21285, 21330, 21332, 21340, 21359, 21360, 21375, 21390, 21419, 21420, 21465, 21490, 21492, 21495, 21500, 21510, 21555, 21600, 21610, 21615, 21620, 21623, 21625, 21645, 21646, 21647, 21648, 21649, 21650, 21655, 21660, 21661, 21665, 21672, 21675, 21680, 21682, 21685, 21690, 21692, 21693, 21695, 21696, 21697, 21698, 21699, 21700, 21701, 21702, 21703, 21704, 21705, 21706, 21707, 21708, 21709, 21710, 21711, 21712, 21715, 21716, 21720, 21735, 21780, 21825, 21870, 21871, 21872, 21873, 21874, 21875, 21876, 21877, 21878, 21879, 21880, 21881, 21884, 21885, 21886, 21890, 21895, 21915, 21917, 21918, 21919, 21920, 21960, 21965, 21970, 21980, 21981, 21982, 21983, 21984, 21985, 21986, 21987, 21988, 21989, 21990, 21991, 21992, 21995, 22000, 22005, 22050, 22095, 22110, 22115, 22125, 22127, 22130, 22140, 22185, 22230, 22275, 22320, 22335, 22340, 22345, 22365, 22410, 22411, 22455, 22460, 22463, 22500, 22505, 22545, 22560, 22590, 22635, 22640, 22680, 22690, 22695, 22696, 22697, 22700, 22701, 22705, 22706, 22725, 22730, 22732, 22735, 22736, 22737, 22740, 22745, 22750, 22760, 22770, 22800, 22810, 22815, 22830, 22860, 22890, 22900, 22905, 22906, 22950, 22955, 22956, 22957, 22959, 22960, 22961, 22962, 22963, 22964, 22965, 22970, 22977, 22995, 22998, 23040, 23041, 23042, 23043, 23045, 23050, 23053, 23055, 23085, 23095, 23100, 23130, 23175, 23220, 23240, 23265, 23295, 23310, 23355, 23400, 23445, 23450, 23490, 23500, 23515, 23525, 23529, 23530, 23535, 23580, 23625, 23670, 23675, 23680, 23685, 23690, 23695, 23700, 23701, 23704, 23710, 23715, 23760, 23805, 23850, 23895, 23925, 23940, 23985, 23990, 24020, 24030, 24035, 24075, 24095, 24098, 24100, 24110, 24120, 24165, 24210, 24255, 24300, 24320, 24345, 24385, 24386, 24390, 24435, 24480, 24525, 24535, 24540, 24569, 24570, 24614, 24615, 24616, 24617, 24618, 24619, 24620, 24622, 24630, 24631, 24633, 24635, 24640, 24650, 24660, 24705, 24706, 24707, 24709, 24710, 24720, 24750, 24755, 24757, 24758, 24760, 24761, 24768, 24769, 24770, 24771, 24772, 24774, 24775, 24776, 24780, 24781, 24795, 24800, 24840, 24885, 24890, 24930, 24975, 25020, 25065, 25110, 25150, 25155, 25170, 25171, 25180, 25200, 25205, 25245, 25250, 25259, 25260, 25265, 25270, 25273, 25275, 25276, 25277, 25278, 25279, 25280, 25281, 25282, 25283, 25285, 25286, 25287, 25288, 25289, 25290, 25291, 25292, 25300, 25335, 25380, 25425, 25470, 25515, 25530, 25540, 25545, 25550, 25560, 25605, 25630, 25635, 25650, 25694, 25695, 25698, 25735, 25736, 25739, 25740, 25745, 25750, 25760, 25762, 25770, 25785, 25830, 25835, 25840, 25845, 25850, 25853, 25855, 25860, 25875, 25885, 25890, 25891, 25892, 25895, 25896, 25897, 25898, 25899, 25900, 25901, 25902, 25903, 25904, 25906, 25907, 25908, 25909, 25910, 25911, 25912, 25915, 25920, 25940, 25950, 25955, 25958, 25965, 25966, 25967, 25968, 25969, 25970, 25971, 25972, 25973, 25974, 25975, 25976, 25977, 25978, 25979, 25980, 26008, 26010, 26011, 26015, 26020, 26040, 26041, 26043, 26045, 26053, 26055, 26100, 26145, 26190, 26210, 26235, 26236, 26237, 26238, 26280, 26325, 26326, 26327, 26328, 26330, 26340, 26350, 26353, 26354, 26355, 26360, 26361, 26362, 26370, 26415, 26460, 26505, 26506, 26550, 26595, 26596, 26597, 26600, 26610, 26640, 26650, 26660, 26665, 26670, 26672, 26673, 26674, 26675, 26676, 26677, 26678, 26679, 26680, 26681, 26682, 26683, 26684, 26685, 26686, 26687, 26730, 26775, 26795, 26797, 26799, 26805, 26810, 26820, 26865, 26900, 26910, 26920, 26925, 26926, 26930, 26935, 26945, 26950, 26955, 27000, 27045, 27090, 27095, 27100, 27101, 27102, 27109, 27110, 27111, 27113, 27115, 27116, 27125, 27135, 27137, 27139, 27140, 27141, 27142, 27143, 27150, 27175, 27180, 27183, 27190, 27225, 27230, 27235, 27239, 27240, 27245, 27248, 27251, 27260, 27270, 27315, 27360, 27405, 27430, 27450, 27451, 27495, 27540, 27550, 27560, 27570, 27575, 27580, 27582, 27583, 27584, 27585, 27630, 27675, 27680, 27720, 27765, 27770, 27771, 27773, 27775, 27780, 27790, 27800, 27802, 27803, 27810, 27855, 27870, 27873, 27875, 27900, 27945, 27980, 27990, 28035, 28080, 28125, 28170, 28215, 28260, 28280, 28305, 28350, 28395, 28440, 28445, 28480, 28485, 28530, 28575, 28620, 28665, 28710, 28755, 28760, 28770, 28800, 28845, 28890, 28935, 28980, 29025, 29030, 29035, 29043, 29045, 29050, 29060, 29070, 29115, 29160, 29172, 29175, 29180, 29185, 29190, 29191, 29200, 29205, 29210, 29215, 29220, 29250, 29270, 29295, 29297, 29300, 29301, 29305, 29340, 29385, 29400, 29430, 29431, 29432, 29433, 29434, 29435, 29440, 29450, 29475, 29520, 29565, 29610, 29655, 29700, 29745, 29790, 29835, 29880, 29925, 29970, 30015, 30016, 30060, 30065, 30068, 30069, 30070, 30072, 30075, 30080, 30105, 30140, 30150, 30195, 30200, 30240, 30255, 30285, 30330, 30375, 30420, 30421, 30465, 30470, 30471, 30475, 30480, 30490, 30510, 30520, 30555, 30580, 30600, 30645, 30650, 30660, 30661, 30662, 30665, 30670, 30690, 30691, 30692, 30696, 30700, 30701, 30710, 30735, 30780, 30825, 30870, 30915, 30960, 31005, 31050, 31070, 31080, 31095, 31096, 31097, 31100, 31140, 31185, 31230, 31275, 31320, 31365, 31410, 31455, 31475, 31500, 31545, 31590, 31592, 31593, 31635, 31680, 31681, 31682, 31684, 31685, 31700, 31725, 31730, 31740, 31765, 31766, 31770, 31815, 31860, 31870, 31875, 31880, 31890, 31905, 31925, 31935, 31950, 31951, 31952, 31953, 31955, 31956, 31957, 31959, 31960, 31970, 31971, 31972, 31995, 32010, 32020, 32040, 32085, 32130, 32175, 32220, 32265, 32310, 32330, 32355, 32365, 32373, 32375, 32385, 32400, 32445, 32455, 32490, 32535, 32580, 32625, 32670, 32715, 32760, 32805, 32850, 32851, 32852, 32895, 32940, 32985, 33025, 33030, 33075, 33120, 33125, 33140, 33165, 33166, 33210, 33230, 33231, 33255, 33300, 33345, 33390, 33435, 33480, 33481, 33483, 33484, 33485, 33486, 33505, 33510, 33511, 33525, 33570, 33580, 33582, 33584, 33585, 33586, 33590, 33595, 33600, 33615, 33660, 33705, 33750, 33795, 33840, 33850, 33860, 33870, 33885, 33930, 33933, 33935, 33950, 33975, 34020, 34040, 34065, 34110, 34155, 34200, 34245, 34290, 34335, 34380, 34425, 34470, 34480, 34500, 34505, 34515, 34516, 34517, 34560, 34605, 34607, 34610, 34620, 34624, 34625, 34626, 34627, 34628, 34629, 34630, 34640, 34644, 34645, 34646, 34647, 34648, 34649, 34650, 34655, 34660, 34665, 34670, 34680, 34695, 34700, 34740, 34785, 34786, 34795, 34830, 34875, 34920, 34965, 34966, 35010, 35055, 35100, 35145, 35190, 35235, 35280, 35325, 35370, 35415, 35460, 35470, 35475, 35477, 35478, 35479, 35480, 35481, 35482, 35483, 35484, 35485, 35486, 35487, 35488, 35489, 35490, 35491, 35505, 35550, 35570, 35580, 35583, 35585, 35586, 35595, 35640, 35685, 35730, 35775, 35785, 35800, 35810, 35820, 35865, 35910, 35955, 36000, 36045, 36046, 36090, 36120, 36135, 36180, 36200, 36201, 36220, 36225, 36226, 36230, 36270, 36300, 36315, 36320, 36360, 36365, 36370, 36371, 36380, 36381, 36382, 36383, 36384, 36385, 36386, 36387, 36388, 36389, 36390, 36391, 36400, 36405, 36417, 36420, 36425, 36430, 36440, 36441, 36442, 36443, 36446, 36447, 36450, 36460, 36495, 36540, 36550, 36563, 36585, 36590, 36595, 36600, 36630, 36675, 36720, 36765, 36810, 36821, 36827, 36830, 36835, 36836, 36838, 36840, 36843, 36846, 36850, 36853, 36855, 36900, 36905, 36945, 36946, 36947, 36948, 36960, 36985, 36990, 36992, 37010, 37011, 37033, 37035, 37038, 37039, 37040, 37041, 37043, 37045, 37047, 37048, 37049, 37050, 37052, 37053, 37058, 37059, 37060, 37070, 37073, 37075, 37077, 37078, 37079, 37080, 37081, 37082, 37083, 37084, 37086, 37090, 37095, 37100, 37105, 37110, 37124, 37125, 37170, 37215, 37260, 37265, 37305, 37350, 37395, 37440, 37485, 37530, 37534, 37535, 37540, 37543, 37544, 37575, 37620, 37665, 37670, 37675, 37710, 37755, 37800, 37810, 37815, 37825, 37828, 37840, 37845, 37850, 37890, 37935, 37980, 37985, 37990, 38025, 38035, 38038, 38045, 38046, 38047, 38048, 38049, 38050, 38051, 38055, 38058, 38060, 38070, 38115, 38120, 38140, 38150, 38160, 38205, 38210, 38250, 38260, 38270, 38275, 38276, 38280, 38295, 38320, 38340, 38385, 38430, 38475, 38520, 38525, 38565, 38568, 38570, 38572, 38610, 38655, 38700, 38715, 38730, 38735, 38745, 38748, 38790, 38835, 38840, 38880, 38925, 38930, 38935, 38950, 38955, 38957, 38960, 38965, 38966, 38970, 38990, 38995, 39000, 39014, 39015, 39050, 39060, 39061, 39062, 39063, 39065, 39066, 39067, 39070, 39071, 39073, 39074, 39075, 39080, 39081, 39085, 39105, 39110, 39112, 39125, 39126, 39127, 39131, 39150, 39200, 39201, 39202, 39203, 39204, 39210, 39211, 39212, 45300, 45303, 45304, 45305, 45307];
pub fn emittername_value(v: EmitterName) -> u32 { match v {
    EmitterName::_12456X => 2,
    EmitterName::_1L117 => 3,
    EmitterName::_1L121E => 4,
    EmitterName::_1L250 => 5,
    EmitterName::_1L220U => 6,
    EmitterName::_1L1221E => 7,
    EmitterName::_1RL257 => 9,
    EmitterName::_1RL138 => 10,
    EmitterName::_1RL257Jammer => 11,
    EmitterName::_5N20 => 12,
    EmitterName::_5H62B => 13,
    EmitterName::_5P10 => 14,
    EmitterName::_5P10E => 15,
    EmitterName::_5P1001 => 16,
    EmitterName::_5P1001E => 17,
    EmitterName::_5P1002 => 18,
    EmitterName::_5P1002E => 19,
    EmitterName::_5P1003 => 20,
    EmitterName::_5P1003E => 21,
    EmitterName::_5P10EMOD => 22,
    EmitterName::_621A3 => 25,
    EmitterName::_860F1AL101 => 40,
    EmitterName::_9B1103M2 => 42,
    EmitterName::_1226DECCAMIL => 45,
    EmitterName::_9B1348 => 46,
    EmitterName::_3KM6 => 47,
    EmitterName::_9KR400 => 48,
    EmitterName::_50N6A => 49,
    EmitterName::_55G61 => 50,
    EmitterName::_59N6 => 55,
    EmitterName::_5N69 => 57,
    EmitterName::_67N6 => 60,
    EmitterName::_76T6 => 63,
    EmitterName::_77T6ABM => 64,
    EmitterName::_80K6 => 65,
    EmitterName::_91N6A => 66,
    EmitterName::_96L6E => 70,
    EmitterName::_96L6TsP => 75,
    EmitterName::_9C18M3 => 76,
    EmitterName::_9C36M => 77,
    EmitterName::_9GR400 => 80,
    EmitterName::_9GR400A => 81,
    EmitterName::_9GR600 => 90,
    EmitterName::_9GR606 => 91,
    EmitterName::_9LV100 => 125,
    EmitterName::_9LV200TA => 135,
    EmitterName::_9LV200TV => 180,
    EmitterName::_9LV200TT => 181,
    EmitterName::_9LV200MKIII => 183,
    EmitterName::_9LV326 => 185,
    EmitterName::_9M96E2Seeker => 190,
    EmitterName::_9S15M2 => 195,
    EmitterName::_9S19M2 => 196,
    EmitterName::_9S19ME => 197,
    EmitterName::_9S32M => 198,
    EmitterName::_9S32ME => 199,
    EmitterName::_9S36E => 200,
    EmitterName::_9S112 => 215,
    EmitterName::A310Z => 225,
    EmitterName::A325A => 270,
    EmitterName::A346Z => 315,
    EmitterName::A353B => 360,
    EmitterName::A372A => 405,
    EmitterName::A372B => 450,
    EmitterName::A372C => 495,
    EmitterName::A377A => 540,
    EmitterName::A377B => 585,
    EmitterName::A380Z => 630,
    EmitterName::A381Z => 675,
    EmitterName::A398Z => 720,
    EmitterName::A403Z => 765,
    EmitterName::A409A => 810,
    EmitterName::A418A => 855,
    EmitterName::A419Z => 900,
    EmitterName::A429Z => 945,
    EmitterName::A432Z => 990,
    EmitterName::A434Z => 1035,
    EmitterName::AA6CAcrid => 1070,
    EmitterName::AA7CApex => 1073,
    EmitterName::A401A => 1080,
    EmitterName::AA10A => 1081,
    EmitterName::AA10CAlamoC => 1082,
    EmitterName::AA13ArrowSeeker => 1085,
    EmitterName::AAM4BMH => 1090,
    EmitterName::AA300 => 1094,
    EmitterName::AA12Seeker => 1095,
    EmitterName::AD4A => 1096,
    EmitterName::ADES => 1097,
    EmitterName::ADS4LRSR => 1098,
    EmitterName::ACR430 => 1099,
    EmitterName::Agave => 1100,
    EmitterName::ACSOPRIE => 1101,
    EmitterName::ABD2000 => 1102,
    EmitterName::ADACMK1 => 1110,
    EmitterName::ADACMK2 => 1111,
    EmitterName::ADAR => 1113,
    EmitterName::ADOUR => 1115,
    EmitterName::AGAT9B1348 => 1117,
    EmitterName::AdrosKT01AV => 1118,
    EmitterName::Agat9E420 => 1120,
    EmitterName::AGM158JASSMSAR => 1122,
    EmitterName::AGM88HARMMMW => 1123,
    EmitterName::AGRION15 => 1125,
    EmitterName::AHV7 => 1130,
    EmitterName::AHV17 => 1150,
    EmitterName::AIMK23 => 1170,
    EmitterName::AIDAII => 1215,
    EmitterName::AIM120A => 1216,
    EmitterName::AIM7MSparrow => 1218,
    EmitterName::_1L271 => 1230,
    EmitterName::ALA51 => 1240,
    EmitterName::AlbatrosMK2 => 1260,
    EmitterName::ALT50 => 1263,
    EmitterName::ALTAIR => 1264,
    EmitterName::AMAPS717 => 1265,
    EmitterName::AMES13MK1 => 1268,
    EmitterName::WGU16B => 1270,
    EmitterName::_1L133BoxSpring => 1280,
    EmitterName::_1L133BoxSpringB => 1282,
    EmitterName::AMDR3D => 1288,
    EmitterName::ANASPS502 => 1305,
    EmitterName::Anemone => 1306,
    EmitterName::ANRITSUElectricAR30A => 1350,
    EmitterName::AntilopeV => 1395,
    EmitterName::ANAAQ24 => 1397,
    EmitterName::ANADM160 => 1398,
    EmitterName::AN_ALE50 => 1400,
    EmitterName::AN_ALQ76 => 1410,
    EmitterName::AN_ALQ99 => 1440,
    EmitterName::AN_ALQ99Band4 => 1441,
    EmitterName::AN_ALQ99LBT => 1442,
    EmitterName::AN_ALQ100 => 1485,
    EmitterName::AN_ALQ101 => 1530,
    EmitterName::AN_ALQ119 => 1575,
    EmitterName::AN_ALQ122 => 1585,
    EmitterName::AN_ALQ126A => 1620,
    EmitterName::AN_ALQ128 => 1621,
    EmitterName::AN_ALQ126B => 1622,
    EmitterName::AN_ALQ131 => 1626,
    EmitterName::AN_ALQ131BlkII => 1627,
    EmitterName::AN_ALQ135CD => 1628,
    EmitterName::AN_ALQ144A3 => 1630,
    EmitterName::AN_ALQ153 => 1632,
    EmitterName::AN_ALQ157Jammer => 1633,
    EmitterName::AN_ALQ155 => 1634,
    EmitterName::AN_ALQ156 => 1635,
    EmitterName::AN_ALQ161A => 1636,
    EmitterName::AN_ALQ161 => 1637,
    EmitterName::AN_ALQ162 => 1638,
    EmitterName::AN_ALQ164 => 1639,
    EmitterName::AN_ALQ165 => 1640,
    EmitterName::AN_ALQ187Jammer => 1641,
    EmitterName::AN_ALQ167 => 1642,
    EmitterName::AN_ALQ1721 => 1643,
    EmitterName::AN_ALQ1722 => 1644,
    EmitterName::AN_ALQ1723 => 1645,
    EmitterName::AN_ALQ176 => 1646,
    EmitterName::AN_ALQ178 => 1647,
    EmitterName::AN_ALQ184 => 1648,
    EmitterName::AN_ALQ1849 => 1649,
    EmitterName::AN_ALQ188 => 1650,
    EmitterName::AN_ALQ214 => 1651,
    EmitterName::AN_ALR56 => 1652,
    EmitterName::AN_ALQ221 => 1653,
    EmitterName::AN_ALR69 => 1654,
    EmitterName::AN_ALQ211 => 1655,
    EmitterName::AN_ALT16A => 1656,
    EmitterName::AN_ALQ173 => 1657,
    EmitterName::AN_ALT28 => 1658,
    EmitterName::AN_ALR66BJammer => 1659,
    EmitterName::AN_ALT32A => 1660,
    EmitterName::AN_ALQ196 => 1661,
    EmitterName::ALQ249NextGenerationJammer => 1662,
    EmitterName::AN_ALQ2401Jammer => 1663,
    EmitterName::AN_ALR66BJammer2 => 1664,
    EmitterName::AN_APD10 => 1665,
    EmitterName::AN_ALQ213 => 1670,
    EmitterName::ALQ214A45Jammer => 1672,
    EmitterName::AN_ALQ218 => 1680,
    EmitterName::ANAPG50 => 1700,
    EmitterName::ANAPG53 => 1710,
    EmitterName::ANAPG59 => 1755,
    EmitterName::ANAPG63 => 1800,
    EmitterName::ANAPG631 => 1805,
    EmitterName::ANAPG632 => 1807,
    EmitterName::ANAPG633 => 1809,
    EmitterName::ANAPG65 => 1845,
    EmitterName::ANAPG66 => 1870,
    EmitterName::ANAPG66V => 1871,
    EmitterName::ANAPG66V2 => 1872,
    EmitterName::ANAPG67 => 1880,
    EmitterName::ANAPG68 => 1890,
    EmitterName::ANAPG689 => 1895,
    EmitterName::ANAPG70 => 1935,
    EmitterName::ANAPG71 => 1940,
    EmitterName::ANAPG73 => 1945,
    EmitterName::ANAPG77 => 1960,
    EmitterName::ANAPG78 => 1970,
    EmitterName::ANAPG79 => 1971,
    EmitterName::ANAPG80 => 1972,
    EmitterName::ANAPG81 => 1974,
    EmitterName::ANAPG821 => 1975,
    EmitterName::ANAPG83 => 1976,
    EmitterName::ANAPG502 => 1980,
    EmitterName::ANAPN1 => 2025,
    EmitterName::ANAPN22 => 2070,
    EmitterName::ANAPN59 => 2115,
    EmitterName::ANAPN69 => 2160,
    EmitterName::ANAPN81 => 2205,
    EmitterName::ANAPN102 => 2220,
    EmitterName::ANAPN117 => 2250,
    EmitterName::ANAPN118 => 2295,
    EmitterName::ANAPN122 => 2320,
    EmitterName::ANAPN130 => 2340,
    EmitterName::ANAPN131 => 2385,
    EmitterName::ANAPN133 => 2430,
    EmitterName::ANAPN134 => 2475,
    EmitterName::ANAPN141 => 2476,
    EmitterName::ANAPN147 => 2520,
    EmitterName::ANAPN150 => 2565,
    EmitterName::ANAPN153 => 2610,
    EmitterName::ANAPN154 => 2655,
    EmitterName::ANAPN155 => 2700,
    EmitterName::ANAPN159 => 2745,
    EmitterName::ANAPN177 => 2746,
    EmitterName::ANAPN179 => 2747,
    EmitterName::ANAPN169 => 2748,
    EmitterName::ANAPN182 => 2790,
    EmitterName::ANAPN187 => 2835,
    EmitterName::ANAPN190 => 2880,
    EmitterName::ANAPN194 => 2925,
    EmitterName::ANAPN195 => 2970,
    EmitterName::ANAPN198 => 3015,
    EmitterName::ANAPN200 => 3060,
    EmitterName::ANAPN202 => 3105,
    EmitterName::ANAPN215 => 3106,
    EmitterName::ANAPN209 => 3120,
    EmitterName::ANAPN209D => 3121,
    EmitterName::ANAPN209A => 3122,
    EmitterName::ANAPN215_2 => 3148,
    EmitterName::ANAPN217 => 3150,
    EmitterName::ANAPN218 => 3152,
    EmitterName::ANAPN224 => 3153,
    EmitterName::ANAPN227 => 3154,
    EmitterName::ANAPN230 => 3155,
    EmitterName::ANAPN232 => 3156,
    EmitterName::ANAPN237A => 3157,
    EmitterName::ANAPN234 => 3158,
    EmitterName::ANAPN235 => 3159,
    EmitterName::ANAPN238 => 3160,
    EmitterName::ANAPN222 => 3161,
    EmitterName::ANAPN239 => 3162,
    EmitterName::ANAPN241 => 3164,
    EmitterName::ANAPN242 => 3166,
    EmitterName::ANAPN243 => 3170,
    EmitterName::ANAPN506 => 3195,
    EmitterName::ANAPQ72 => 3240,
    EmitterName::ANAPQ99 => 3285,
    EmitterName::ANAPQ100 => 3330,
    EmitterName::ANAPQ102 => 3375,
    EmitterName::ANAPQ107 => 3376,
    EmitterName::ANAPQ109 => 3420,
    EmitterName::ANAPQ113 => 3465,
    EmitterName::ANAPQ120 => 3510,
    EmitterName::ANAPQ122 => 3512,
    EmitterName::ANAPQ126 => 3555,
    EmitterName::ANAPQ128 => 3600,
    EmitterName::ANAPQ129 => 3645,
    EmitterName::ANAPQ148 => 3690,
    EmitterName::ANAPQ150A => 3700,
    EmitterName::ANAPQ153 => 3735,
    EmitterName::ANAPQ155 => 3770,
    EmitterName::ANAPQ159 => 3780,
    EmitterName::ANAPQ164 => 3785,
    EmitterName::ANAPQ166 => 3788,
    EmitterName::ANAPQ170 => 3790,
    EmitterName::ANAPQ174 => 3791,
    EmitterName::ANAPQ180 => 3794,
    EmitterName::ANAPQ181 => 3795,
    EmitterName::ANAPQ186 => 3800,
    EmitterName::ANAPS15J => 3810,
    EmitterName::ANAPS162 => 3813,
    EmitterName::ANAPS31 => 3820,
    EmitterName::ANAPS42 => 3825,
    EmitterName::ANAPS80 => 3870,
    EmitterName::ANAPS88 => 3915,
    EmitterName::ANAPS88A => 3916,
    EmitterName::ANAPS94 => 3920,
    EmitterName::ANAPS96 => 3922,
    EmitterName::ANAPS113 => 3958,
    EmitterName::ANAPS115 => 3960,
    EmitterName::ANAPS116 => 4005,
    EmitterName::ANAPS120 => 4050,
    EmitterName::ANAPS121 => 4095,
    EmitterName::ANAPS124 => 4140,
    EmitterName::ANAPS125 => 4185,
    EmitterName::ANAPS127 => 4190,
    EmitterName::ANAPS128 => 4230,
    EmitterName::ANAPS130 => 4275,
    EmitterName::ANAPS133 => 4320,
    EmitterName::ANAPS134 => 4365,
    EmitterName::ANAPS137 => 4410,
    EmitterName::ANAPS1375 => 4413,
    EmitterName::ANAPS137B => 4415,
    EmitterName::ANAPS137B5 => 4420,
    EmitterName::ANAPS137D5Elta => 4425,
    EmitterName::ANAPS138 => 4455,
    EmitterName::ANAPS139 => 4460,
    EmitterName::ANAPS143 => 4464,
    EmitterName::ANAPS1431 => 4465,
    EmitterName::ANAPS143B => 4466,
    EmitterName::ANAPS1433 => 4467,
    EmitterName::ANAPS143B3 => 4468,
    EmitterName::ANAPS153 => 4475,
    EmitterName::ANAPS154 => 4476,
    EmitterName::ANAPS150 => 4480,
    EmitterName::ANAPS145 => 4482,
    EmitterName::ANAPS147 => 4485,
    EmitterName::ANAPS149 => 4486,
    EmitterName::ANAPS503 => 4489,
    EmitterName::ANAPS504 => 4490,
    EmitterName::ANAPS705 => 4491,
    EmitterName::ANAPW22 => 4500,
    EmitterName::ANAPW23 => 4545,
    EmitterName::ANAPX6 => 4590,
    EmitterName::ANAPX7 => 4635,
    EmitterName::ANAPX39 => 4680,
    EmitterName::ANAPX64 => 4681,
    EmitterName::ANAPX72 => 4725,
    EmitterName::ANAPX76 => 4770,
    EmitterName::ANAPX78 => 4815,
    EmitterName::ANAPX100 => 4816,
    EmitterName::ANAPX101 => 4860,
    EmitterName::ANAPX113AIFF => 4870,
    EmitterName::ANAPY1 => 4900,
    EmitterName::ANAPY2 => 4905,
    EmitterName::ANAPY3 => 4950,
    EmitterName::ANAPY7 => 4952,
    EmitterName::ANAPY8 => 4953,
    EmitterName::ANAPY9 => 4954,
    EmitterName::ANAPY10 => 4955,
    EmitterName::ANARN21 => 4995,
    EmitterName::ANARN52 => 5040,
    EmitterName::ANARN84 => 5085,
    EmitterName::ANARN118 => 5130,
    EmitterName::ANARN153V => 5131,
    EmitterName::ANARN153 => 5165,
    EmitterName::ANARW73 => 5175,
    EmitterName::ANASB1 => 5220,
    EmitterName::ANASG21 => 5265,
    EmitterName::ANASN137 => 5266,
    EmitterName::ANASN128 => 5270,
    EmitterName::ANASQ108 => 5280,
    EmitterName::ANASQ239 => 5285,
    EmitterName::ANAST502 => 5290,
    EmitterName::ANAVQ55 => 5300,
    EmitterName::ANAWG9 => 5310,
    EmitterName::ANBRN1 => 5320,
    EmitterName::ANBPS5 => 5325,
    EmitterName::ANBPS9 => 5355,
    EmitterName::ANBPS15 => 5400,
    EmitterName::ANBPS15H => 5401,
    EmitterName::ANBPS15J => 5402,
    EmitterName::ANBPS16 => 5405,
    EmitterName::ANBPS162 => 5406,
    EmitterName::ANCPN4 => 5410,
    EmitterName::ANCPN18 => 5415,
    EmitterName::ANCRM30 => 5420,
    EmitterName::ANDPW23 => 5430,
    EmitterName::ANDSQ26PhoenixMH => 5445,
    EmitterName::ANDSQ28HarpoonMH => 5490,
    EmitterName::ANFPN1 => 5491,
    EmitterName::ANFPN28 => 5493,
    EmitterName::ANFPN33 => 5494,
    EmitterName::ANFPN40 => 5495,
    EmitterName::ANFPN62 => 5500,
    EmitterName::ANFPN66 => 5502,
    EmitterName::ANFPS8 => 5503,
    EmitterName::ANFPN67 => 5504,
    EmitterName::ANFPS16 => 5505,
    EmitterName::ANFPS5 => 5506,
    EmitterName::ANFPS18 => 5507,
    EmitterName::ANFPS89 => 5508,
    EmitterName::ANFPS49 => 5509,
    EmitterName::ANFPS117 => 5510,
    EmitterName::ANFPS85 => 5511,
    EmitterName::ANFPS88 => 5512,
    EmitterName::ANFPS113 => 5513,
    EmitterName::ANFPS115 => 5514,
    EmitterName::ANFPS20R => 5515,
    EmitterName::ANFPS132 => 5516,
    EmitterName::ANFPS77 => 5520,
    EmitterName::ANFPS41 => 5521,
    EmitterName::ANFPS100A => 5522,
    EmitterName::ANFPS103 => 5525,
    EmitterName::ANFPS108 => 5526,
    EmitterName::ANGPN12 => 5527,
    EmitterName::ANFPS124 => 5528,
    EmitterName::ANFPS129 => 5529,
    EmitterName::ANGPX6 => 5530,
    EmitterName::ANGPX8 => 5535,
    EmitterName::ANGRN12 => 5537,
    EmitterName::ANMPN14K => 5538,
    EmitterName::ANMPN14 => 5539,
    EmitterName::ANMPQ10 => 5540,
    EmitterName::ANMPN17 => 5541,
    EmitterName::ANMPQ3339465761ILL => 5545,
    EmitterName::ANMPQ34485562TA => 5550,
    EmitterName::ANMPQ49 => 5551,
    EmitterName::ANMPQ3550TA => 5555,
    EmitterName::ANMPQ50C => 5556,
    EmitterName::ANMPQ3751TT => 5560,
    EmitterName::ANMPQ43 => 5565,
    EmitterName::ANMPQ50 => 5567,
    EmitterName::ANMPQ53 => 5570,
    EmitterName::ANMPQ63 => 5571,
    EmitterName::ANMPQ64 => 5575,
    EmitterName::ANSLQ32 => 5576,
    EmitterName::ANMPQ65 => 5577,
    EmitterName::ANSLQ324 => 5578,
    EmitterName::ANSLQ32A => 5579,
    EmitterName::ANSPG34 => 5580,
    EmitterName::ANMSQ104 => 5582,
    EmitterName::ANMPS36 => 5583,
    EmitterName::ANSLQ503 => 5584,
    EmitterName::ANSPG48MK25MOD3 => 5620,
    EmitterName::ANSPG50 => 5625,
    EmitterName::ANSPG51 => 5670,
    EmitterName::ANPPQ2 => 5690,
    EmitterName::ANPPS15 => 5700,
    EmitterName::ANPPS5 => 5705,
    EmitterName::ANPPS5D => 5710,
    EmitterName::ANSPG51CWITI => 5715,
    EmitterName::ANSPG51FC => 5760,
    EmitterName::ANSPG51CD => 5761,
    EmitterName::ANSPG52 => 5805,
    EmitterName::ANSPG53 => 5850,
    EmitterName::ANSPG55B => 5895,
    EmitterName::ANSPG60 => 5940,
    EmitterName::ANSPG62 => 5985,
    EmitterName::ANSPG503 => 5995,
    EmitterName::ANSPN4 => 6015,
    EmitterName::ANSPN11 => 6025,
    EmitterName::ANSPN35 => 6030,
    EmitterName::ANSPN41 => 6050,
    EmitterName::ANSPN43 => 6075,
    EmitterName::ANSPN43A => 6076,
    EmitterName::ANSPN43C => 6078,
    EmitterName::ANSPN46 => 6085,
    EmitterName::ANSPQ2 => 6120,
    EmitterName::ANSPQ5A => 6155,
    EmitterName::ANSPQ9A => 6165,
    EmitterName::ANSPQ9B => 6166,
    EmitterName::ANSPQ34 => 6190,
    EmitterName::ANSPS4 => 6210,
    EmitterName::ANSPS5 => 6255,
    EmitterName::ANSPS5C => 6300,
    EmitterName::ANSPS6 => 6345,
    EmitterName::ANSPS10 => 6390,
    EmitterName::ANSPS21 => 6435,
    EmitterName::ANSPS28 => 6480,
    EmitterName::ANSPS37 => 6525,
    EmitterName::ANSPS39A => 6570,
    EmitterName::ANSPS40 => 6615,
    EmitterName::ANSPS41 => 6660,
    EmitterName::ANSPS48 => 6705,
    EmitterName::ANSPS48C => 6750,
    EmitterName::ANSPS48E => 6752,
    EmitterName::ANSPS49 => 6795,
    EmitterName::ANSPS491 => 6796,
    EmitterName::ANSPS492 => 6797,
    EmitterName::ANSPS493 => 6798,
    EmitterName::ANSPS494 => 6799,
    EmitterName::ANSPS495 => 6800,
    EmitterName::ANSPS496 => 6801,
    EmitterName::ANSPS497 => 6802,
    EmitterName::ANSPS498 => 6803,
    EmitterName::ANSPS49A1 => 6804,
    EmitterName::ANSPS52 => 6840,
    EmitterName::ANSPS53 => 6885,
    EmitterName::ANSPS55 => 6930,
    EmitterName::ANSPS52C => 6945,
    EmitterName::ANSPS55CS => 6970,
    EmitterName::ANSPS55SS => 6975,
    EmitterName::ANSPS58 => 7020,
    EmitterName::ANSPS58C => 7025,
    EmitterName::ANSPS59 => 7065,
    EmitterName::ANSPS64 => 7110,
    EmitterName::ANSPS649 => 7119,
    EmitterName::SPS6412 => 7120,
    EmitterName::ANSPS65 => 7155,
    EmitterName::ANSPS66 => 7175,
    EmitterName::ANSPS67 => 7200,
    EmitterName::ANSPS73_1 => 7201,
    EmitterName::ANSPS69 => 7210,
    EmitterName::ANSPS73_2 => 7215,
    EmitterName::ANSPS74 => 7216,
    EmitterName::ANSPS88 => 7225,
    EmitterName::ANSPS501 => 7226,
    EmitterName::ANSPS505 => 7230,
    EmitterName::ANSPY1 => 7245,
    EmitterName::ANSPY1A => 7250,
    EmitterName::ANSPY1B_1 => 7252,
    EmitterName::ANSPY1B_2 => 7253,
    EmitterName::ANSPY1D_1 => 7260,
    EmitterName::ANSPY1D_2 => 7261,
    EmitterName::ANSPY1F => 7265,
    EmitterName::ANSPY3 => 7266,
    EmitterName::ANTPN12 => 7267,
    EmitterName::ANSPY4 => 7268,
    EmitterName::ANTLQ32ARMDecoy => 7269,
    EmitterName::ANTPN17 => 7270,
    EmitterName::ANTPN8 => 7271,
    EmitterName::ANTPN22 => 7272,
    EmitterName::ANTLQ17A => 7273,
    EmitterName::ANTMS1 => 7274,
    EmitterName::ANTPN24 => 7275,
    EmitterName::ANTPN25 => 7276,
    EmitterName::ANTMS2 => 7277,
    EmitterName::ANTPN19 => 7278,
    EmitterName::ANTPN31 => 7279,
    EmitterName::ANTPQ18 => 7280,
    EmitterName::ANSPY6 => 7281,
    EmitterName::ANTPQ36 => 7295,
    EmitterName::ANTPQ37 => 7300,
    EmitterName::ANTPQ38 => 7301,
    EmitterName::ANTPQ39 => 7302,
    EmitterName::ANTPQ47 => 7303,
    EmitterName::ANTPS43 => 7305,
    EmitterName::ANTPS43E => 7310,
    EmitterName::ANTPQ48 => 7311,
    EmitterName::ANTPQ49 => 7312,
    EmitterName::ANTPQ46A => 7313,
    EmitterName::ANTPS34 => 7314,
    EmitterName::ANTPS59 => 7315,
    EmitterName::ANTPS44 => 7316,
    EmitterName::ANTPQ50 => 7317,
    EmitterName::ANTPS63 => 7320,
    EmitterName::ANTPS65 => 7321,
    EmitterName::ANTPS701 => 7322,
    EmitterName::ANTPS63SS => 7323,
    EmitterName::ANTPS73 => 7324,
    EmitterName::ANTPS75 => 7325,
    EmitterName::ANTPS77 => 7326,
    EmitterName::ANTPS78 => 7327,
    EmitterName::ANTPS79 => 7328,
    EmitterName::ANTPS703 => 7329,
    EmitterName::ANTPX467 => 7330,
    EmitterName::ANTPS80 => 7331,
    EmitterName::ANTPY2 => 7333,
    EmitterName::ANTSQ288 => 7334,
    EmitterName::ANULQ6A => 7335,
    EmitterName::ANULQ19 => 7340,
    EmitterName::ANULQ21 => 7345,
    EmitterName::ANUPN25 => 7380,
    EmitterName::ANUPS1 => 7425,
    EmitterName::ANUPS2 => 7426,
    EmitterName::ANUPS3 => 7427,
    EmitterName::ANUPX1 => 7470,
    EmitterName::ANUPX5 => 7515,
    EmitterName::ANUPX11 => 7560,
    EmitterName::ANUPX12 => 7605,
    EmitterName::ANUPX17 => 7650,
    EmitterName::ANUPX23 => 7695,
    EmitterName::ANUSQ1133 => 7700,
    EmitterName::ANVPS2 => 7740,
    EmitterName::ANPLM3 => 7750,
    EmitterName::ANPLM3A => 7751,
    EmitterName::ANPLM4 => 7752,
    EmitterName::ANZPY1 => 7753,
    EmitterName::ANZPY2MPRTIP => 7754,
    EmitterName::ANZPY3 => 7755,
    EmitterName::ANZPY8 => 7760,
    EmitterName::AORL1AS => 7761,
    EmitterName::AORL85KTKMTA => 7762,
    EmitterName::APAR => 7765,
    EmitterName::Aparna => 7770,
    EmitterName::APECSII => 7780,
    EmitterName::ApelcoAD77 => 7785,
    EmitterName::APG71 => 7830,
    EmitterName::APN148 => 7875,
    EmitterName::APN227 => 7920,
    EmitterName::APQ113 => 7965,
    EmitterName::APQ120 => 8010,
    EmitterName::APQ148 => 8055,
    EmitterName::APS504V3 => 8100,
    EmitterName::AQUITAINEII => 8102,
    EmitterName::AR1 => 8103,
    EmitterName::AR3D => 8105,
    EmitterName::PlesseyAR5 => 8112,
    EmitterName::AR15 => 8113,
    EmitterName::AR152 => 8114,
    EmitterName::AR320 => 8115,
    EmitterName::AR325 => 8118,
    EmitterName::AR327 => 8120,
    EmitterName::Arbalet52 => 8121,
    EmitterName::ARBB31 => 8122,
    EmitterName::ARBB33 => 8123,
    EmitterName::ARIES => 8126,
    EmitterName::AriesNav => 8127,
    EmitterName::AriesCS => 8128,
    EmitterName::ARGS14E => 8134,
    EmitterName::ARGS31 => 8135,
    EmitterName::ARGUS => 8140,
    EmitterName::ARM31 => 8145,
    EmitterName::ARECIBO => 8150,
    EmitterName::ARED => 8160,
    EmitterName::ARI5954 => 8190,
    EmitterName::ARI5955 => 8235,
    EmitterName::ARI5979 => 8280,
    EmitterName::ARGSN31 => 8281,
    EmitterName::ARGOS10 => 8282,
    EmitterName::ARGOS800 => 8283,
    EmitterName::ARI5983 => 8284,
    EmitterName::ARI5991 => 8285,
    EmitterName::ARI5995 => 8290,
    EmitterName::ARINC564BNDXKINGRDR1E => 8325,
    EmitterName::ARINC700BNDXKINGRDR1E => 8370,
    EmitterName::ARK1 => 8375,
    EmitterName::ARLMMTI => 8378,
    EmitterName::ARMOR => 8379,
    EmitterName::ARSR3 => 8380,
    EmitterName::ARS400 => 8381,
    EmitterName::ARSR1 => 8382,
    EmitterName::ARSR4 => 8384,
    EmitterName::ARSR18 => 8390,
    EmitterName::ARTHUR => 8395,
    EmitterName::ARTHURMODB => 8400,
    EmitterName::ARTHURMODC => 8405,
    EmitterName::ARTISAN3D => 8410,
    EmitterName::AS2Kipper => 8415,
    EmitterName::AS2KipperMH => 8460,
    EmitterName::AS3YJ83KmmWMH => 8470,
    EmitterName::AS_34KormoranSeeker => 8480,
    EmitterName::AS4Kitchen => 8505,
    EmitterName::AS4KitchenMH => 8550,
    EmitterName::AS5KeltMH => 8595,
    EmitterName::AS6KingfishMH => 8640,
    EmitterName::AS7Kerry => 8685,
    EmitterName::AS7KerryMG => 8730,
    EmitterName::AS15KENTaltimeter => 8735,
    EmitterName::AS17AKryptonSeeker => 8736,
    EmitterName::AS17BKryptonSeeker => 8737,
    EmitterName::AS901 => 8750,
    EmitterName::AS901A => 8751,
    EmitterName::ASARS2 => 8755,
    EmitterName::ASDEKDD => 8756,
    EmitterName::ASLESHA => 8757,
    EmitterName::ASMGCS => 8758,
    EmitterName::ASMI18X => 8759,
    EmitterName::AspideAAMSAMILL => 8760,
    EmitterName::ASMI3 => 8761,
    EmitterName::AselsanMAR => 8762,
    EmitterName::ASR2000 => 8771,
    EmitterName::ASR4 => 8772,
    EmitterName::ASR4D => 8773,
    EmitterName::ASRO => 8775,
    EmitterName::ASR12_1 => 8776,
    EmitterName::ASR22AL => 8778,
    EmitterName::ASR3 => 8779,
    EmitterName::ASR5 => 8780,
    EmitterName::ASR7 => 8782,
    EmitterName::ASR8 => 8785,
    EmitterName::ASR9 => 8790,
    EmitterName::ASR9000 => 8791,
    EmitterName::ASTI => 8792,
    EmitterName::ASR11DASR => 8793,
    EmitterName::ASR12_2 => 8795,
    EmitterName::RaytheonASR10SS => 8812,
    EmitterName::ASR23SS => 8816,
    EmitterName::Arabel => 8818,
    EmitterName::ASTRE => 8819,
    EmitterName::AT2SwatterMG => 8820,
    EmitterName::_9K114ShturmMG => 8824,
    EmitterName::ASTOR => 8825,
    EmitterName::ASTRARCI => 8826,
    EmitterName::ATCR22 => 8830,
    EmitterName::ATCR22M => 8831,
    EmitterName::ATCR2T => 8832,
    EmitterName::ATCR33 => 8840,
    EmitterName::ATCR33KM => 8845,
    EmitterName::ATCR33S => 8846,
    EmitterName::ATCR3T => 8847,
    EmitterName::ATCR44 => 8848,
    EmitterName::ATCR44K => 8849,
    EmitterName::Argos73 => 8850,
    EmitterName::ATCR44MS => 8851,
    EmitterName::ATCR4T => 8852,
    EmitterName::AtlasElektronkTRSN => 8865,
    EmitterName::ATLAS8600X => 8866,
    EmitterName::Atlas9600M => 8867,
    EmitterName::ATLAS9600X => 8868,
    EmitterName::ATLAS9600S => 8869,
    EmitterName::ATLAS9740VTS => 8870,
    EmitterName::ATLASS => 8871,
    EmitterName::ATR500C => 8880,
    EmitterName::AVG65 => 8910,
    EmitterName::AVH7 => 8955,
    EmitterName::AVIACM => 8980,
    EmitterName::AVIAD => 8985,
    EmitterName::Aviaconversia => 8990,
    EmitterName::AviaconversiaII => 8993,
    EmitterName::AviaconversiaIII => 8995,
    EmitterName::AVQ20 => 9000,
    EmitterName::AVQ21 => 9005,
    EmitterName::AVQ30X => 9045,
    EmitterName::AVQ50 => 9075,
    EmitterName::AVQ70 => 9090,
    EmitterName::AWS5 => 9135,
    EmitterName::AWS6 => 9180,
    EmitterName::AWS6B300 => 9185,
    EmitterName::B597Z => 9200,
    EmitterName::B636Z => 9205,
    EmitterName::BackBoard => 9215,
    EmitterName::BackNetAB => 9225,
    EmitterName::BackTrap => 9270,
    EmitterName::BAESystemsRT1805APN => 9280,
    EmitterName::BAESDASS2000Jammer => 9281,
    EmitterName::BalanceBeam => 9285,
    EmitterName::BALTIKAB => 9300,
    EmitterName::BALTYK => 9310,
    EmitterName::BallEnd => 9315,
    EmitterName::BallGun => 9360,
    EmitterName::BALLPOINT => 9370,
    EmitterName::BandStand => 9405,
    EmitterName::BandStand3 => 9406,
    EmitterName::P3537 => 9450,
    EmitterName::BARAX => 9475,
    EmitterName::BASIR110D => 9485,
    EmitterName::BassTilt => 9495,
    EmitterName::Badger => 9505,
    EmitterName::BarracudaJammer => 9510,
    EmitterName::BaykalCountermeasuresSuite => 9530,
    EmitterName::Beacon => 9540,
    EmitterName::BeanSticks => 9585,
    EmitterName::BeeHind => 9630,
    EmitterName::BellNipJammer => 9638,
    EmitterName::BellPushJammer => 9639,
    EmitterName::BellCrownA => 9640,
    EmitterName::BellCrownB => 9642,
    EmitterName::BellSquat => 9643,
    EmitterName::BIGBACK => 9645,
    EmitterName::BigBirdABC => 9659,
    EmitterName::BigBirdD => 9660,
    EmitterName::BigBirdDMod => 9661,
    EmitterName::BigBirdE91N6E => 9662,
    EmitterName::BigBulge => 9675,
    EmitterName::BigBulgeA => 9720,
    EmitterName::BigBulgeB => 9765,
    EmitterName::BIGEYE => 9775,
    EmitterName::SNAR10 => 9780,
    EmitterName::BIGHEADB => 9781,
    EmitterName::BigMesh => 9810,
    EmitterName::BigNet => 9855,
    EmitterName::_9S15MT => 9885,
    EmitterName::BillFold => 9900,
    EmitterName::BLIGHTER400 => 9903,
    EmitterName::BlowpipeMG => 9905,
    EmitterName::BLR => 9920,
    EmitterName::BlueFox => 9930,
    EmitterName::BlueKestrel => 9933,
    EmitterName::BlueVixen => 9935,
    EmitterName::BlueSilk => 9945,
    EmitterName::BlueParrot => 9990,
    EmitterName::BlueOrchid => 10035,
    EmitterName::BMDJG8715 => 10057,
    EmitterName::BoatSail => 10080,
    EmitterName::BORA550 => 10090,
    EmitterName::BoforsElectronic9LV331 => 10125,
    EmitterName::BoforsEricssonSeaGiraffe50HC => 10170,
    EmitterName::BowlMesh => 10215,
    EmitterName::BoxBrick => 10260,
    EmitterName::BoxTrail => 10305,
    EmitterName::BMKG300GJammingPod => 10308,
    EmitterName::BMKG600JammingPod => 10310,
    EmitterName::BMKG800JammingPod => 10312,
    EmitterName::BMKG860186058606 => 10315,
    EmitterName::BPS11A => 10350,
    EmitterName::BPS14 => 10395,
    EmitterName::BPS15A => 10440,
    EmitterName::BR3440CAX57 => 10450,
    EmitterName::BR15TokyoKEIKI => 10485,
    EmitterName::BrahMos => 10500,
    EmitterName::BridgeMaster => 10510,
    EmitterName::BridgeMasterEEPA => 10511,
    EmitterName::BridgeMasterEATAandARPA => 10512,
    EmitterName::BridgeMasterEnaval => 10513,
    EmitterName::BrimstonemmWMH => 10520,
    EmitterName::BreadBin => 10530,
    EmitterName::Asr => 10540,
    EmitterName::BT271 => 10575,
    EmitterName::BU304 => 10595,
    EmitterName::BX732 => 10620,
    EmitterName::BUKMB => 10630,
    EmitterName::BuranD => 10642,
    EmitterName::BUREVISNYK1 => 10650,
    EmitterName::BuzzStand => 10665,
    EmitterName::C5AMultiModeRadar => 10710,
    EmitterName::C802AL => 10711,
    EmitterName::CAESAR => 10740,
    EmitterName::Caiman => 10755,
    EmitterName::CakeStand => 10800,
    EmitterName::CalypsoC61 => 10845,
    EmitterName::CalypsoC63 => 10846,
    EmitterName::CalypsoIi => 10890,
    EmitterName::CalypsoIII => 10891,
    EmitterName::CalypsoIV => 10892,
    EmitterName::CardionCoastal => 10895,
    EmitterName::CastorIi => 10935,
    EmitterName::Castor2JTT => 10940,
    EmitterName::CatHouse => 10980,
    EmitterName::CDR431 => 10985,
    EmitterName::CEAFAR => 10987,
    EmitterName::CEAMOUNT => 10988,
    EmitterName::CEAFAR2L => 10989,
    EmitterName::CEROS200 => 10990,
    EmitterName::CEROS200CWI => 10991,
    EmitterName::CEATAC => 10992,
    EmitterName::CEAOPS => 10993,
    EmitterName::CerberusIII => 10994,
    EmitterName::CHSSN6 => 10995,
    EmitterName::CerberusIV => 10996,
    EmitterName::ChairBlackTT => 11000,
    EmitterName::ChairBlackILL => 11010,
    EmitterName::LEMZ96L6 => 11020,
    EmitterName::CheeseBrick => 11025,
    EmitterName::CheeseCake => 11030,
    EmitterName::LeninetzObzorMS => 11070,
    EmitterName::Clamshell => 11115,
    EmitterName::CLC1 => 11117,
    EmitterName::CLC2 => 11118,
    EmitterName::CLC3 => 11119,
    EmitterName::CLR155 => 11120,
    EmitterName::COASTWATCHER100 => 11123,
    EmitterName::CoastalGiraffe => 11125,
    EmitterName::COBRA => 11130,
    EmitterName::CobraShoe => 11133,
    EmitterName::Colibri => 11137,
    EmitterName::CollinsWXR300 => 11155,
    EmitterName::CollinsWXR700X => 11160,
    EmitterName::CollinsTWR850 => 11165,
    EmitterName::CollinsDN101 => 11205,
    EmitterName::COMET1 => 11230,
    EmitterName::CONDORMK2 => 11235,
    EmitterName::ConsiliumSelesmarRTM25XIM => 11240,
    EmitterName::ContravesSeaHunterMK4 => 11250,
    EmitterName::CornCan => 11260,
    EmitterName::COSMOSKYMED1 => 11265,
    EmitterName::CR105RMCA => 11270,
    EmitterName::CREWDuke2 => 11280,
    EmitterName::CREWDuke3 => 11290,
    EmitterName::CrossBird => 11295,
    EmitterName::CrossDome => 11340,
    EmitterName::CrossLegs => 11385,
    EmitterName::CrossOut => 11430,
    EmitterName::CrossSlot => 11475,
    EmitterName::CrossSword => 11520,
    EmitterName::CrossUp => 11565,
    EmitterName::CrossSwordFC => 11610,
    EmitterName::CrotaleAcquisitionTA => 11655,
    EmitterName::CrotaleNGTA => 11660,
    EmitterName::CrotaleTT => 11665,
    EmitterName::CrotaleMGMissileSystem => 11700,
    EmitterName::CS10TA => 11715,
    EmitterName::CSFVaran => 11725,
    EmitterName::CSSN4MH => 11735,
    EmitterName::CSSC3CCAS1M1M2MH => 11745,
    EmitterName::HY2BMH => 11748,
    EmitterName::CSSC2BHY1AMH => 11790,
    EmitterName::CSSN4Sardine => 11800,
    EmitterName::CSSN8Saccade => 11810,
    EmitterName::CurlStoneB => 11825,
    EmitterName::CWS1 => 11830,
    EmitterName::CWS2 => 11835,
    EmitterName::CWS3 => 11840,
    EmitterName::Cygnus => 11860,
    EmitterName::CylinderHead => 11880,
    EmitterName::Cymbeline => 11902,
    EmitterName::CyranoII => 11925,
    EmitterName::CyranoIV => 11970,
    EmitterName::CyranoIVM => 11975,
    EmitterName::DA0100 => 12010,
    EmitterName::DA0500 => 12015,
    EmitterName::DA052 => 12016,
    EmitterName::DA_08 => 12018,
    EmitterName::Dawn => 12060,
    EmitterName::DCR => 12090,
    EmitterName::DeadDuck => 12105,
    EmitterName::DECCA20V909 => 12110,
    EmitterName::DECCA20V90S => 12111,
    EmitterName::DECCA45 => 12150,
    EmitterName::DECCA50 => 12195,
    EmitterName::DECCA71 => 12196,
    EmitterName::Decca72 => 12197,
    EmitterName::DECCA110 => 12240,
    EmitterName::DECCA170 => 12285,
    EmitterName::DECCAHF2 => 12292,
    EmitterName::DECCA202 => 12330,
    EmitterName::DECCAD202 => 12375,
    EmitterName::DECCA303 => 12420,
    EmitterName::DECCA535 => 12430,
    EmitterName::DECCA626 => 12465,
    EmitterName::DECCA629 => 12510,
    EmitterName::DECCA914 => 12555,
    EmitterName::DECCA916 => 12600,
    EmitterName::DECCA926 => 12610,
    EmitterName::DECCA1070A => 12615,
    EmitterName::Decca1008 => 12616,
    EmitterName::DECCA1226Commercial => 12645,
    EmitterName::DECCA1290 => 12655,
    EmitterName::DECCA1626 => 12690,
    EmitterName::DECCA2070 => 12691,
    EmitterName::Decca1630 => 12694,
    EmitterName::DECCA2459 => 12735,
    EmitterName::DECCAAWS1 => 12780,
    EmitterName::DECCAAWS2 => 12782,
    EmitterName::DECCAAWS4 => 12785,
    EmitterName::DECCAAWS42 => 12787,
    EmitterName::DECCAMAR => 12800,
    EmitterName::DECCARM326 => 12805,
    EmitterName::DECCARM416 => 12825,
    EmitterName::DECCARM970BT => 12850,
    EmitterName::DECCARM914 => 12870,
    EmitterName::DF21DSeeker => 12875,
    EmitterName::DECCARM1690 => 12915,
    EmitterName::DECCA1690 => 12916,
    EmitterName::DECCASuper101MK3 => 12960,
    EmitterName::DISS1 => 13005,
    EmitterName::DISS7 => 13006,
    EmitterName::DISS013 => 13007,
    EmitterName::DISS15D => 13015,
    EmitterName::DLD100A => 13020,
    EmitterName::RapierTTDN181 => 13050,
    EmitterName::Rapier2000TT => 13055,
    EmitterName::DogEar => 13095,
    EmitterName::DogHouse => 13140,
    EmitterName::DM3 => 13141,
    EmitterName::DM3B => 13142,
    EmitterName::DM5 => 13143,
    EmitterName::Don2 => 13185,
    EmitterName::DonAB2Kay => 13230,
    EmitterName::Donets => 13275,
    EmitterName::Doppler90Series => 13280,
    EmitterName::DownBeat => 13320,
    EmitterName::DR582 => 13360,
    EmitterName::DRAA2A => 13365,
    EmitterName::DRAA2B => 13410,
    EmitterName::DRAA9A => 13415,
    EmitterName::DRAA11A => 13420,
    EmitterName::DRAC37B => 13450,
    EmitterName::DRAC38 => 13452,
    EmitterName::DRAC39 => 13455,
    EmitterName::DRAC39A => 13456,
    EmitterName::DRAC43A => 13460,
    EmitterName::DRAC44A => 13465,
    EmitterName::DragonEye => 13477,
    EmitterName::DragonEye2 => 13480,
    EmitterName::DragonEye3 => 13481,
    EmitterName::DragonEye4 => 13485,
    EmitterName::DRBC30B => 13500,
    EmitterName::DRBC31A => 13545,
    EmitterName::DRBC31D => 13546,
    EmitterName::DRBC32 => 13585,
    EmitterName::DRBC32A => 13590,
    EmitterName::DRBC32D => 13635,
    EmitterName::DRBC33A => 13680,
    EmitterName::DRBI10 => 13725,
    EmitterName::DRBI23 => 13770,
    EmitterName::DRBJ11B => 13815,
    EmitterName::DRBN30 => 13860,
    EmitterName::DRBN32 => 13905,
    EmitterName::DRBN34 => 13915,
    EmitterName::DRBR51 => 13950,
    EmitterName::DRBV20A => 13994,
    EmitterName::DRBV20B => 13995,
    EmitterName::DRBV21Mars05 => 14020,
    EmitterName::DRBV22 => 14040,
    EmitterName::DRBV23 => 14041,
    EmitterName::DRBV26C => 14085,
    EmitterName::DRBV26D => 14086,
    EmitterName::DRBV30 => 14130,
    EmitterName::DRBV31 => 14131,
    EmitterName::DRBV50 => 14175,
    EmitterName::DRBV51 => 14220,
    EmitterName::DRBV51A => 14265,
    EmitterName::DRBV51B => 14310,
    EmitterName::DRBV51C => 14355,
    EmitterName::DropKick => 14400,
    EmitterName::DRUA31 => 14445,
    EmitterName::DrumTilt => 14490,
    EmitterName::DrumTiltA => 14535,
    EmitterName::DrumTiltB => 14545,
    EmitterName::DRUN30A => 14560,
    EmitterName::Dumbo => 14580,
    EmitterName::DWSR92 => 14583,
    EmitterName::DWSR93S => 14585,
    EmitterName::EAGLE => 14586,
    EmitterName::EAGLEMk1 => 14587,
    EmitterName::EAJPJammingPod => 14588,
    EmitterName::EKCOE390 => 14590,
    EmitterName::ECR90 => 14600,
    EmitterName::ECR90Jammer => 14601,
    EmitterName::EggCupAB => 14625,
    EmitterName::EISCAT => 14640,
    EmitterName::EKCOE120 => 14660,
    EmitterName::EKCO190 => 14670,
    EmitterName::Ekran1 => 14677,
    EmitterName::ELL8222 => 14710,
    EmitterName::ELL8240 => 14713,
    EmitterName::ELM2001B => 14715,
    EmitterName::ELM2022 => 14725,
    EmitterName::ELM2032 => 14726,
    EmitterName::ELM2052 => 14727,
    EmitterName::ELM2055 => 14728,
    EmitterName::ELM2060 => 14730,
    EmitterName::ELM2075 => 14735,
    EmitterName::ELM2022U3 => 14736,
    EmitterName::ELM2080 => 14737,
    EmitterName::ELM2080S => 14738,
    EmitterName::ELM2085 => 14739,
    EmitterName::ELM2106 => 14740,
    EmitterName::ELM2106NG => 14741,
    EmitterName::ELM2125 => 14742,
    EmitterName::ELM2129 => 14743,
    EmitterName::ELM2150 => 14744,
    EmitterName::ELM2083 => 14745,
    EmitterName::ELM2084 => 14746,
    EmitterName::ELM2160V1 => 14747,
    EmitterName::ELM2084MMR => 14748,
    EmitterName::ELM2112 => 14749,
    EmitterName::ELM2200 => 14750,
    EmitterName::ELM2133 => 14751,
    EmitterName::ELM2205 => 14755,
    EmitterName::ELM2207 => 14760,
    EmitterName::ELM2215 => 14765,
    EmitterName::ELM2216V => 14770,
    EmitterName::ELM2216XH => 14772,
    EmitterName::ELM2218S => 14775,
    EmitterName::ELT361 => 14776,
    EmitterName::ELM2258 => 14777,
    EmitterName::ELT553 => 14779,
    EmitterName::ELT558 => 14780,
    EmitterName::ELT572 => 14785,
    EmitterName::ELT715 => 14790,
    EmitterName::EltaELM2022A => 14800,
    EmitterName::ELTAELM2221GMSTGR => 14805,
    EmitterName::ELM2228S3D => 14806,
    EmitterName::ELM2705 => 14807,
    EmitterName::ELM2226 => 14808,
    EmitterName::ELM2228X => 14809,
    EmitterName::ELTASIS => 14810,
    EmitterName::ELM2238 => 14811,
    EmitterName::ELM2248 => 14815,
    EmitterName::ELM2288 => 14820,
    EmitterName::ELM2311 => 14821,
    EmitterName::ELM2026 => 14822,
    EmitterName::ELNA4007 => 14830,
    EmitterName::ELT318 => 14831,
    EmitterName::ELW2085 => 14832,
    EmitterName::ELT521 => 14833,
    EmitterName::ELW2090 => 14835,
    EmitterName::EnhancedMeteorDetectionRadarEMDR => 14845,
    EmitterName::EMD2900 => 14850,
    EmitterName::EMPAR => 14851,
    EmitterName::EndTray => 14895,
    EmitterName::EQ36 => 14896,
    EmitterName::EricssonSLAR => 14897,
    EmitterName::Erieye => 14898,
    EmitterName::ESR1 => 14900,
    EmitterName::ESR220 => 14901,
    EmitterName::ESR380 => 14902,
    EmitterName::ESTEREL => 14903,
    EmitterName::ET316 => 14905,
    EmitterName::ExocetType => 14935,
    EmitterName::ExocetAL => 14936,
    EmitterName::Exocet1 => 14940,
    EmitterName::Exocet1MH => 14985,
    EmitterName::Exocet2 => 15030,
    EmitterName::EyeBowl => 15075,
    EmitterName::EyeShield => 15120,
    EmitterName::F332Z => 15140,
    EmitterName::FalconClawTI => 15155,
    EmitterName::FalconClawTT => 15156,
    EmitterName::FALCON => 15160,
    EmitterName::FALCONG => 15161,
    EmitterName::FalconEye => 15163,
    EmitterName::FanSongA => 15165,
    EmitterName::FanSongBFTA => 15200,
    EmitterName::FanSongBFTT => 15210,
    EmitterName::FanSongCETA => 15220,
    EmitterName::FanSongCETT => 15230,
    EmitterName::FanSongCEMG => 15240,
    EmitterName::FanSongBFFMG => 15255,
    EmitterName::FanTail => 15300,
    EmitterName::FAR2117 => 15301,
    EmitterName::FAR2827 => 15302,
    EmitterName::FAR2837S => 15303,
    EmitterName::FAR3000 => 15304,
    EmitterName::FB7Radar => 15305,
    EmitterName::FCR1401 => 15310,
    EmitterName::FCS212E => 15312,
    EmitterName::FCS212G => 15313,
    EmitterName::FCS221A => 15315,
    EmitterName::FCS221C => 15317,
    EmitterName::FCS222 => 15318,
    EmitterName::FCS231 => 15319,
    EmitterName::FCS3 => 15320,
    EmitterName::FinCurve => 15345,
    EmitterName::FireCan => 15390,
    EmitterName::FireDish => 15435,
    EmitterName::FireDomeTA => 15470,
    EmitterName::FireDomeTT => 15475,
    EmitterName::FireDomeTI => 15480,
    EmitterName::FireIron => 15525,
    EmitterName::FireWheel => 15570,
    EmitterName::FishBowl => 15615,
    EmitterName::FK3 => 15620,
    EmitterName::FLAIR => 15650,
    EmitterName::FlapLid => 15660,
    EmitterName::_30N6E => 15661,
    EmitterName::FlapTruck => 15705,
    EmitterName::FlapWheel => 15750,
    EmitterName::FlashDance => 15795,
    EmitterName::FlashDanceM => 15800,
    EmitterName::P15 => 15840,
    EmitterName::_35N6 => 15842,
    EmitterName::FlatScreen => 15885,
    EmitterName::FlatSpin => 15930,
    EmitterName::FlatTrackJammer => 15970,
    EmitterName::FlatTwin => 15975,
    EmitterName::FL400 => 15980,
    EmitterName::FL1800 => 15985,
    EmitterName::FL1800U => 15990,
    EmitterName::FL1800S => 16000,
    EmitterName::Fledermaus => 16020,
    EmitterName::FLYCATCHER => 16030,
    EmitterName::FLYCATCHERMK2 => 16035,
    EmitterName::FlyScreen => 16065,
    EmitterName::FlyScreenAB => 16110,
    EmitterName::FlyTrapB => 16155,
    EmitterName::FM90 => 16160,
    EmitterName::FogLampMG => 16200,
    EmitterName::FogLampTT => 16245,
    EmitterName::FoilTwo => 16290,
    EmitterName::FootBall => 16300,
    EmitterName::FoxHunter => 16335,
    EmitterName::FoxFireAL => 16380,
    EmitterName::FoxFireILL => 16390,
    EmitterName::FR151A => 16400,
    EmitterName::FurunoFR1500FR1600 => 16405,
    EmitterName::FR1505DA => 16410,
    EmitterName::FR1510DS => 16412,
    EmitterName::FR2000 => 16420,
    EmitterName::Furuno2855W => 16421,
    EmitterName::FregatMAE => 16422,
    EmitterName::FregatN1 => 16423,
    EmitterName::FregatN2 => 16424,
    EmitterName::FrontDome => 16425,
    EmitterName::FregatMAE5 => 16426,
    EmitterName::FrontDoor => 16470,
    EmitterName::FrontPiece => 16515,
    EmitterName::FurbymmWMH => 16520,
    EmitterName::Furke => 16550,
    EmitterName::Furke2 => 16552,
    EmitterName::Furke4 => 16554,
    EmitterName::Furuno => 16560,
    EmitterName::Furuno1721 => 16561,
    EmitterName::Furuno1934C => 16564,
    EmitterName::Furuno1715 => 16565,
    EmitterName::Furuno1730 => 16580,
    EmitterName::Furuno1731Mark3 => 16581,
    EmitterName::Furuno1832 => 16585,
    EmitterName::Furuno1835 => 16587,
    EmitterName::Furuno1932 => 16590,
    EmitterName::Furuno1935 => 16596,
    EmitterName::Furuno701 => 16605,
    EmitterName::Furuno1940 => 16606,
    EmitterName::Furuno7112 => 16650,
    EmitterName::FurunoFR2130S => 16652,
    EmitterName::FurunoFAR2137S => 16654,
    EmitterName::FurunoFAR28X7 => 16655,
    EmitterName::FurunoFAR3230S => 16658,
    EmitterName::FR2110 => 16660,
    EmitterName::FR2115 => 16662,
    EmitterName::FR8062 => 16663,
    EmitterName::Furuno2125 => 16670,
    EmitterName::Furuno240 => 16690,
    EmitterName::Furuno2400 => 16695,
    EmitterName::FR801D => 16725,
    EmitterName::Furuno8051 => 16730,
    EmitterName::FurunoDRS2D => 16732,
    EmitterName::FurunoDRS4D => 16733,
    EmitterName::FurunoDRS4A => 16734,
    EmitterName::G030A => 16735,
    EmitterName::FurunoDRS6AXClass => 16736,
    EmitterName::DRS4W => 16737,
    EmitterName::GA0100 => 16740,
    EmitterName::Gabbiano => 16750,
    EmitterName::Gage => 16785,
    EmitterName::Gaofen3 => 16787,
    EmitterName::GAOFEN12 => 16789,
    EmitterName::GAPGATE => 16790,
    EmitterName::Gardenia => 16800,
    EmitterName::GarminGMR1224 => 16815,
    EmitterName::GarminFantom24 => 16820,
    EmitterName::GarminGWX68WeatherRadar => 16825,
    EmitterName::Garpin => 16830,
    EmitterName::GateGuard => 16833,
    EmitterName::GarpunBalE => 16835,
    EmitterName::GBS1 => 16840,
    EmitterName::GCA2000 => 16850,
    EmitterName::Furuno18321921Series => 16858,
    EmitterName::GEMINIDB => 16870,
    EmitterName::GEMOlympus => 16871,
    EmitterName::GEMSentinel => 16872,
    EmitterName::GEMBX132 => 16875,
    EmitterName::GEMSC2050X => 16876,
    EmitterName::GEMSeaEagle200N => 16877,
    EmitterName::GenericInternalJammer => 16879,
    EmitterName::MPDR12 => 16880,
    EmitterName::GENX => 16881,
    EmitterName::GepardTT => 16884,
    EmitterName::GERANF => 16888,
    EmitterName::GERFAUT => 16890,
    EmitterName::GFE1 => 16895,
    EmitterName::GIRAFFE => 16900,
    EmitterName::GIRAFFE1X => 16903,
    EmitterName::Giraffe40 => 16905,
    EmitterName::Giraffe50AT => 16908,
    EmitterName::Giraffe75 => 16912,
    EmitterName::GinSlingTA => 16915,
    EmitterName::GinSling => 16920,
    EmitterName::GinSlingMG => 16925,
    EmitterName::GoalKeeper => 16930,
    EmitterName::GoldenDome => 16935,
    EmitterName::GoldenHeart => 16940,
    EmitterName::GoldenRock => 16942,
    EmitterName::GPN22 => 16945,
    EmitterName::GPSJ10 => 16946,
    EmitterName::GPSJ25 => 16947,
    EmitterName::GPSJ40 => 16948,
    EmitterName::GPSJ50 => 16949,
    EmitterName::GRN9 => 16950,
    EmitterName::GRANK => 16951,
    EmitterName::GraveStone => 16960,
    EmitterName::GRAVES => 16963,
    EmitterName::GreenStain => 16965,
    EmitterName::GridBow => 17010,
    EmitterName::GrifoF => 17016,
    EmitterName::_9S32 => 17025,
    EmitterName::GRILLSCREEN => 17027,
    EmitterName::Grom2 => 17029,
    EmitterName::GROUNDMASTER400 => 17030,
    EmitterName::GT4 => 17031,
    EmitterName::GRS440 => 17032,
    EmitterName::GUARDIAN => 17050,
    EmitterName::Guardsman => 17055,
    EmitterName::RPK2 => 17070,
    EmitterName::HRJZ7264AJammer => 17075,
    EmitterName::H025 => 17079,
    EmitterName::HADR => 17080,
    EmitterName::HairNet => 17100,
    EmitterName::HalfPlateA => 17145,
    EmitterName::HalfPlateB => 17190,
    EmitterName::HARD => 17220,
    EmitterName::Harpoon => 17225,
    EmitterName::HatBox => 17230,
    EmitterName::HawkScreech => 17235,
    EmitterName::HayPole => 17250,
    EmitterName::HayRick => 17255,
    EmitterName::HeadLightA => 17280,
    EmitterName::HeadLights => 17325,
    EmitterName::HeadLightsC => 17370,
    EmitterName::HeadLightsMGA => 17415,
    EmitterName::HeadLightsMGB => 17460,
    EmitterName::HeadLightsTT => 17505,
    EmitterName::HeadNet => 17550,
    EmitterName::HeartAcheB => 17572,
    EmitterName::HellfiremmWMH => 17590,
    EmitterName::HenEgg => 17595,
    EmitterName::HenHouse => 17640,
    EmitterName::HenNest => 17685,
    EmitterName::HenRoost => 17730,
    EmitterName::Herakles => 17732,
    EmitterName::HF2MG => 17735,
    EmitterName::HGR105 => 17745,
    EmitterName::HighBrick => 17775,
    EmitterName::HighFix => 17820,
    EmitterName::HighGuard => 17842,
    EmitterName::HighLarkTI => 17865,
    EmitterName::HighLark1 => 17910,
    EmitterName::HighLark2 => 17955,
    EmitterName::HighLark4 => 18000,
    EmitterName::HighLune => 18045,
    EmitterName::HighPoleAB => 18090,
    EmitterName::HighScoop => 18135,
    EmitterName::_9S19MT => 18150,
    EmitterName::HighSieve => 18180,
    EmitterName::HillBlock => 18185,
    EmitterName::HimalayasCountermeasuresSuite => 18189,
    EmitterName::HG9550 => 18190,
    EmitterName::HJ6374 => 18193,
    EmitterName::HLDRADAR900 => 18194,
    EmitterName::HLJQ520 => 18195,
    EmitterName::HN503 => 18200,
    EmitterName::HNC03M => 18201,
    EmitterName::HomeTalk => 18225,
    EmitterName::HornSpoon => 18270,
    EmitterName::HotBrick => 18280,
    EmitterName::HotFlash => 18315,
    EmitterName::HotFlash2 => 18316,
    EmitterName::IHS6 => 18318,
    EmitterName::IRL144MHotShotTA => 18320,
    EmitterName::IRL144MHotShotTT => 18325,
    EmitterName::IRL144MHotShotMG => 18330,
    EmitterName::HPS106 => 18331,
    EmitterName::HPS104 => 18332,
    EmitterName::HQ9MH => 18339,
    EmitterName::HSR1128 => 18340,
    EmitterName::HT233 => 18348,
    EmitterName::HQ61 => 18350,
    EmitterName::HRJS => 18351,
    EmitterName::IDerbyER => 18352,
    EmitterName::IBIS80 => 18353,
    EmitterName::IBIS150 => 18355,
    EmitterName::IBIS200 => 18357,
    EmitterName::IFFMKXIIAIMSUPX29 => 18360,
    EmitterName::Janet => 18400,
    EmitterName::IFFMKXV => 18405,
    EmitterName::IFFINT => 18406,
    EmitterName::JackKnife => 18407,
    EmitterName::IFFTRSP => 18408,
    EmitterName::JMUSICElbitSystemsJammer => 18409,
    EmitterName::JavelinMG => 18410,
    EmitterName::JALQ8 => 18445,
    EmitterName::JFPS7 => 18449,
    EmitterName::JayBird => 18450,
    EmitterName::JFPS3 => 18451,
    EmitterName::JH10 => 18452,
    EmitterName::JMPQP7 => 18453,
    EmitterName::JL7 => 18454,
    EmitterName::JL10B => 18455,
    EmitterName::JMA1576 => 18456,
    EmitterName::JRCJMA92526CA => 18457,
    EmitterName::JLP40 => 18458,
    EmitterName::JRCJMR9200SeriesX => 18459,
    EmitterName::JRCNMD401 => 18460,
    EmitterName::JRCJRM310MK2 => 18461,
    EmitterName::JMA1596 => 18462,
    EmitterName::JMA7000 => 18464,
    EmitterName::JRCJMA7700 => 18465,
    EmitterName::JMA5320 => 18466,
    EmitterName::JRCJMR92106XC => 18467,
    EmitterName::JERS1 => 18468,
    EmitterName::JINDALEE => 18469,
    EmitterName::JRCJMA9900series => 18470,
    EmitterName::JLP40D => 18471,
    EmitterName::JRCJMA5300series => 18475,
    EmitterName::Jupiter => 18495,
    EmitterName::JupiterII => 18540,
    EmitterName::JY8 => 18550,
    EmitterName::JY8A => 18551,
    EmitterName::JY9 => 18555,
    EmitterName::JY9Modified => 18556,
    EmitterName::JY11EW => 18557,
    EmitterName::JY14 => 18560,
    EmitterName::JY14A => 18561,
    EmitterName::JY16 => 18565,
    EmitterName::JY24 => 18570,
    EmitterName::JAPG1 => 18571,
    EmitterName::JAPG2 => 18572,
    EmitterName::JY29 => 18575,
    EmitterName::JYL1 => 18578,
    EmitterName::JYL6 => 18580,
    EmitterName::JYL6A => 18582,
    EmitterName::JZQF612 => 18583,
    EmitterName::K376Z => 18585,
    EmitterName::K77M => 18586,
    EmitterName::Kaige => 18600,
    EmitterName::KALKAN => 18610,
    EmitterName::KBPAfganit => 18611,
    EmitterName::KALKANII => 18615,
    EmitterName::KelvinHughes2A => 18630,
    EmitterName::KelvinHughes149 => 18675,
    EmitterName::Karpaty => 18700,
    EmitterName::Kashtan3JammingSystem => 18710,
    EmitterName::KelvinHughestype1006 => 18720,
    EmitterName::KelvinHughestype1007 => 18765,
    EmitterName::KelvinHughesType1007FBand => 18766,
    EmitterName::KelvinHughes2007FBand => 18767,
    EmitterName::KelvinHughes2007IBand => 18768,
    EmitterName::KHNucleus5000 => 18770,
    EmitterName::KHMANTA => 18774,
    EmitterName::KHNUCLEUS26000 => 18775,
    EmitterName::KHNUCLEUS35000 => 18776,
    EmitterName::KHNUCLEUS36000A => 18777,
    EmitterName::KHFamily => 18780,
    EmitterName::KelvinHughes6000A => 18781,
    EmitterName::Kh38MAEMH => 18782,
    EmitterName::KG8605A => 18784,
    EmitterName::KH902M => 18785,
    EmitterName::KHOROMK => 18786,
    EmitterName::KHIBINY => 18787,
    EmitterName::KG300E => 18789,
    EmitterName::KHSharpEye => 18790,
    EmitterName::KHSharpEyeB => 18791,
    EmitterName::KHSharpEyeC => 18792,
    EmitterName::KH1700 => 18795,
    EmitterName::KingPin => 18797,
    EmitterName::KG300 => 18805,
    EmitterName::KiteScreech => 18810,
    EmitterName::KiteScreechA => 18855,
    EmitterName::KiteScreechB => 18900,
    EmitterName::KLC3B => 18930,
    EmitterName::KJ500NanjingRadar => 18944,
    EmitterName::Kivach => 18945,
    EmitterName::KJ500Jammer => 18946,
    EmitterName::KLC1 => 18947,
    EmitterName::KLJ1 => 18948,
    EmitterName::KLJ3 => 18950,
    EmitterName::KLJ4 => 18951,
    EmitterName::KLJ4B => 18952,
    EmitterName::KLJ5 => 18955,
    EmitterName::KLJ7 => 18960,
    EmitterName::KLJ7B => 18961,
    EmitterName::KLJ7A => 18962,
    EmitterName::KnifeRest => 18990,
    EmitterName::P10 => 19035,
    EmitterName::KNIFERESTC => 19037,
    EmitterName::KodenMD3730 => 19039,
    EmitterName::KJ2000 => 19040,
    EmitterName::KODENMDC900 => 19041,
    EmitterName::Koopol => 19042,
    EmitterName::KOPYOI => 19045,
    EmitterName::KR75 => 19050,
    EmitterName::KRONOS => 19051,
    EmitterName::KREDO1E => 19052,
    EmitterName::Krasukha2 => 19053,
    EmitterName::KRONOSGRANDNAVAL => 19054,
    EmitterName::KRM66E => 19060,
    EmitterName::KSASRN => 19080,
    EmitterName::KSATSR => 19125,
    EmitterName::KS1APHASEDARRAY => 19127,
    EmitterName::KS418 => 19129,
    EmitterName::KS418E => 19130,
    EmitterName::KZ100 => 19131,
    EmitterName::KZ900 => 19132,
    EmitterName::L175V => 19140,
    EmitterName::L3705PresidentSJammer => 19142,
    EmitterName::L415 => 19143,
    EmitterName::L88 => 19145,
    EmitterName::LAADS => 19150,
    EmitterName::LandFall => 19170,
    EmitterName::LandRollMG => 19215,
    EmitterName::LandRollTA => 19260,
    EmitterName::LandRollTT => 19305,
    EmitterName::LAZUR => 19306,
    EmitterName::Model791A => 19307,
    EmitterName::LAP3000 => 19309,
    EmitterName::LC150 => 19310,
    EmitterName::LEER3 => 19320,
    EmitterName::LegDrive => 19330,
    EmitterName::LeninetzV004 => 19340,
    EmitterName::Leningraf => 19350,
    EmitterName::LIANA => 19370,
    EmitterName::LightBulb => 19395,
    EmitterName::LIRAA10 => 19396,
    EmitterName::LIROD8 => 19397,
    EmitterName::LIRODMKII => 19398,
    EmitterName::LLX05K => 19399,
    EmitterName::LMTNRAI6A => 19400,
    EmitterName::LN55 => 19440,
    EmitterName::Ln66 => 19485,
    EmitterName::Liman => 19500,
    EmitterName::Liman2 => 19505,
    EmitterName::LockheedVigilance => 19520,
    EmitterName::LongBow => 19530,
    EmitterName::LongBrick => 19575,
    EmitterName::LongBull => 19620,
    EmitterName::LongEye => 19665,
    EmitterName::LongHead => 19710,
    EmitterName::LongTalk => 19755,
    EmitterName::LongTrack => 19800,
    EmitterName::LongTrough => 19845,
    EmitterName::LookTwo => 19890,
    EmitterName::LOPAR => 19920,
    EmitterName::LORAN => 19935,
    EmitterName::LowBlowTA => 19950,
    EmitterName::LowBlowTT => 19955,
    EmitterName::LowBlowMG => 19960,
    EmitterName::LowJackTT => 19970,
    EmitterName::LowJackMG => 19971,
    EmitterName::LowSieve => 19980,
    EmitterName::LowTrough => 20025,
    EmitterName::LR66 => 20029,
    EmitterName::LRA900 => 20030,
    EmitterName::TRS2050 => 20040,
    EmitterName::LW01 => 20060,
    EmitterName::LW08 => 20070,
    EmitterName::M1983FCR => 20090,
    EmitterName::M2240 => 20115,
    EmitterName::M44 => 20160,
    EmitterName::M401Z => 20205,
    EmitterName::M585Z => 20250,
    EmitterName::M588Z => 20295,
    EmitterName::MA1IFFPortion => 20340,
    EmitterName::MADHACK => 20350,
    EmitterName::MARELD => 20360,
    EmitterName::MAType909 => 20385,
    EmitterName::MARCS152 => 20420,
    EmitterName::Marconi1810 => 20430,
    EmitterName::MarconiCanadaHC75 => 20475,
    EmitterName::MarconiS713 => 20495,
    EmitterName::MarconiS1802 => 20520,
    EmitterName::MarconiS247 => 20530,
    EmitterName::MarconiS810 => 20565,
    EmitterName::MarconiSA10 => 20585,
    EmitterName::MARCONIST801 => 20589,
    EmitterName::MarconiST805 => 20590,
    EmitterName::Marconitype967 => 20610,
    EmitterName::Marconitype968 => 20655,
    EmitterName::Marconitype992 => 20700,
    EmitterName::Marconisignaaltype1022 => 20745,
    EmitterName::Marconisignaaltype910 => 20790,
    EmitterName::Marconisignaaltype911 => 20835,
    EmitterName::Marconisignaaltype992R => 20880,
    EmitterName::MARTELLO743D => 20890,
    EmitterName::MARTELLOS723A => 20895,
    EmitterName::MASTERA => 20897,
    EmitterName::MBDAFLAADSMJammer => 20898,
    EmitterName::MELCO3 => 20915,
    EmitterName::MELODI => 20917,
    EmitterName::MERLIN => 20918,
    EmitterName::Meraj4 => 20919,
    EmitterName::NorthropGrummanMESA => 20920,
    EmitterName::MeshBrick => 20925,
    EmitterName::METEOR1500S => 20927,
    EmitterName::METEOR200 => 20929,
    EmitterName::METEOR50DX => 20930,
    EmitterName::METEOR300 => 20931,
    EmitterName::MeteorBVRAAM => 20933,
    EmitterName::MFR => 20935,
    EmitterName::MFSR210045 => 20940,
    EmitterName::MICAMH => 20942,
    EmitterName::MICARF => 20943,
    EmitterName::MineralME => 20945,
    EmitterName::MirageILL => 20950,
    EmitterName::MiysisJammer => 20955,
    EmitterName::MK15 => 20969,
    EmitterName::MK15CIWS => 20970,
    EmitterName::MK23 => 21015,
    EmitterName::MK23TAS => 21060,
    EmitterName::MK25 => 21105,
    EmitterName::Mk25Mod3 => 21110,
    EmitterName::Mk25Mod7 => 21130,
    EmitterName::MK35M2 => 21150,
    EmitterName::MK92 => 21195,
    EmitterName::MK92CAS => 21240,
    EmitterName::MK92STIR => 21285,
    EmitterName::MK95 => 21330,
    EmitterName::MKS818 => 21332,
    EmitterName::MLA1 => 21340,
    EmitterName::MMAPQ706 => 21359,
    EmitterName::MM950 => 21360,
    EmitterName::MMAPS705 => 21375,
    EmitterName::MMAPS784 => 21390,
    EmitterName::MMSPG73 => 21419,
    EmitterName::MMSPG74 => 21420,
    EmitterName::MMSPG75 => 21465,
    EmitterName::MMSPN703 => 21490,
    EmitterName::MMSPN730 => 21492,
    EmitterName::MMSPN753B => 21495,
    EmitterName::MMSPQ3 => 21500,
    EmitterName::MMSPS702 => 21510,
    EmitterName::MMSPS768 => 21555,
    EmitterName::MMSPS774 => 21600,
    EmitterName::MMSPS791 => 21610,
    EmitterName::MMSPS794 => 21615,
    EmitterName::MMSPS798 => 21620,
    EmitterName::MMSR => 21623,
    EmitterName::Model17C => 21625,
    EmitterName::Moon4 => 21645,
    EmitterName::MoonPie => 21646,
    EmitterName::MOONCONE => 21647,
    EmitterName::MoonRack => 21648,
    EmitterName::MOONFACE => 21649,
    EmitterName::MMRS => 21650,
    EmitterName::Model360 => 21655,
    EmitterName::Model378 => 21660,
    EmitterName::Model970 => 21661,
    EmitterName::Model974 => 21665,
    EmitterName::MONOLITB => 21672,
    EmitterName::Monument => 21675,
    EmitterName::Mouse => 21680,
    EmitterName::MP411ESM => 21682,
    EmitterName::MPDR18S => 21685,
    EmitterName::MPDR18X => 21690,
    EmitterName::MPDR45E => 21692,
    EmitterName::MR2311 => 21693,
    EmitterName::MPR => 21695,
    EmitterName::MR2314 => 21696,
    EmitterName::MPS1 => 21697,
    EmitterName::MR36B => 21698,
    EmitterName::MR231MOD => 21699,
    EmitterName::MR1600 => 21700,
    EmitterName::MRR => 21701,
    EmitterName::MR35 => 21702,
    EmitterName::MR36 => 21703,
    EmitterName::MRL1 => 21704,
    EmitterName::MRL4 => 21705,
    EmitterName::MRL5 => 21706,
    EmitterName::MSAM => 21707,
    EmitterName::MR36A => 21708,
    EmitterName::MSTAR => 21709,
    EmitterName::MT305X => 21710,
    EmitterName::MR10M1E => 21711,
    EmitterName::MR90 => 21712,
    EmitterName::MRK411 => 21715,
    EmitterName::MR320MTopazV => 21716,
    EmitterName::MSP418K => 21720,
    EmitterName::MuffCob => 21735,
    EmitterName::Mushroom => 21780,
    EmitterName::Mushroom1 => 21825,
    EmitterName::Mushroom2 => 21870,
    EmitterName::Mushroom3 => 21871,
    EmitterName::N23 => 21872,
    EmitterName::N011MBars => 21873,
    EmitterName::N011MBarsB => 21874,
    EmitterName::N011MBarsC => 21875,
    EmitterName::N011MBarsR => 21876,
    EmitterName::N035IrbisE => 21877,
    EmitterName::N036Byelka => 21878,
    EmitterName::N25 => 21879,
    EmitterName::N920Z => 21880,
    EmitterName::N001V => 21881,
    EmitterName::NACOSRADARPILOTPlatinum => 21884,
    EmitterName::NampoB => 21885,
    EmitterName::NAGIRA => 21886,
    EmitterName::NanjingB => 21890,
    EmitterName::NanjingC => 21895,
    EmitterName::Nayada => 21915,
    EmitterName::NAYADA5M => 21917,
    EmitterName::NAYADA5PV => 21918,
    EmitterName::NEBOM => 21919,
    EmitterName::NeboSVU => 21920,
    EmitterName::Neptun => 21960,
    EmitterName::Nettuno4100 => 21965,
    EmitterName::NIKEHERCULESMTR => 21970,
    EmitterName::NIKETT => 21980,
    EmitterName::NorthropGrummanMFEWJammer => 21981,
    EmitterName::NORINCO3D => 21982,
    EmitterName::NJ81E => 21983,
    EmitterName::Normandie => 21984,
    EmitterName::NRJ6A => 21985,
    EmitterName::NOSTRADAMUS => 21986,
    EmitterName::NPG1240 => 21987,
    EmitterName::NPG1460 => 21988,
    EmitterName::NPG434 => 21989,
    EmitterName::NPG630 => 21990,
    EmitterName::NPM510 => 21991,
    EmitterName::NutCan => 21992,
    EmitterName::NPVegaLiana => 21995,
    EmitterName::NovellaNV1_70 => 22000,
    EmitterName::NRBA50 => 22005,
    EmitterName::NRBA51 => 22050,
    EmitterName::NRBF20A => 22095,
    EmitterName::NRJ5 => 22110,
    EmitterName::NS9005 => 22115,
    EmitterName::NS100Series => 22125,
    EmitterName::NUR31 => 22127,
    EmitterName::NWS3 => 22130,
    EmitterName::NysaB => 22140,
    EmitterName::O524A => 22185,
    EmitterName::O580B => 22230,
    EmitterName::O625Z => 22275,
    EmitterName::O626Z => 22320,
    EmitterName::OceanMaster => 22335,
    EmitterName::OceanMaster400 => 22340,
    EmitterName::OddGroup => 22345,
    EmitterName::OddLot => 22365,
    EmitterName::OddPair => 22410,
    EmitterName::OddRods => 22411,
    EmitterName::Oka => 22455,
    EmitterName::OFOGH => 22460,
    EmitterName::OFOGH3 => 22463,
    EmitterName::OKEAN => 22500,
    EmitterName::OKEANA => 22505,
    EmitterName::OKINXE12C => 22545,
    EmitterName::OKO => 22560,
    EmitterName::OMEGA => 22590,
    EmitterName::OmeraORB32 => 22635,
    EmitterName::OMUL => 22640,
    EmitterName::OneEye => 22680,
    EmitterName::OP28 => 22690,
    EmitterName::OPRL4 => 22695,
    EmitterName::OPRM71 => 22696,
    EmitterName::OPS9 => 22697,
    EmitterName::OPS11BC => 22700,
    EmitterName::OPS12 => 22701,
    EmitterName::OPS14B => 22705,
    EmitterName::OPS14C => 22706,
    EmitterName::OPS16B => 22725,
    EmitterName::OPS18 => 22730,
    EmitterName::OPS19 => 22732,
    EmitterName::OPS20 => 22735,
    EmitterName::OPS22 => 22736,
    EmitterName::OPS24 => 22737,
    EmitterName::OPS28 => 22740,
    EmitterName::OPS28C => 22745,
    EmitterName::OPS39 => 22750,
    EmitterName::OPTIMA3_2 => 22760,
    EmitterName::OR2 => 22770,
    EmitterName::ORB31D => 22800,
    EmitterName::ORB31S => 22810,
    EmitterName::ORB32 => 22815,
    EmitterName::ORB42 => 22830,
    EmitterName::OrionRtn10X => 22860,
    EmitterName::SurfaceWave => 22890,
    EmitterName::OtomatMK1 => 22900,
    EmitterName::OtomatMKIITeseo => 22905,
    EmitterName::OtomatSeriesAL => 22906,
    EmitterName::OwlScreech => 22950,
    EmitterName::P360Z => 22955,
    EmitterName::P14 => 22956,
    EmitterName::P180U => 22957,
    EmitterName::P182 => 22959,
    EmitterName::PA1660 => 22960,
    EmitterName::P18M => 22961,
    EmitterName::P190U => 22962,
    EmitterName::P30 => 22963,
    EmitterName::P18MOD => 22964,
    EmitterName::P35M => 22965,
    EmitterName::PAGE => 22970,
    EmitterName::PaintBox => 22977,
    EmitterName::PalmFrond => 22995,
    EmitterName::ModifiedPaintBox => 22998,
    EmitterName::PalmFrondAB => 23040,
    EmitterName::Pandora => 23041,
    EmitterName::PALSAR2 => 23042,
    EmitterName::PantsirSMTAR => 23043,
    EmitterName::PAR2 => 23045,
    EmitterName::PAR2000 => 23050,
    EmitterName::PAR2090C => 23053,
    EmitterName::PAR80 => 23055,
    EmitterName::PatHandTT => 23085,
    EmitterName::PatHandMG => 23095,
    EmitterName::PATRIOT => 23100,
    EmitterName::PattyCake => 23130,
    EmitterName::PawnCake => 23175,
    EmitterName::PBR4Rubin => 23220,
    EmitterName::PCS514 => 23240,
    EmitterName::PeaSticks => 23265,
    EmitterName::PechoraSC => 23295,
    EmitterName::PeelCone => 23310,
    EmitterName::PeelGroup => 23355,
    EmitterName::PeelGroupA => 23400,
    EmitterName::PeelGroupB => 23445,
    EmitterName::PeelGroupMG => 23450,
    EmitterName::PeelPair => 23490,
    EmitterName::Pelena => 23500,
    EmitterName::PGZ07 => 23515,
    EmitterName::Phalanx => 23525,
    EmitterName::PhazotronGukol4 => 23529,
    EmitterName::PhazotronZhukAAE => 23530,
    EmitterName::Philips9LV200 => 23535,
    EmitterName::Philips9LV331 => 23580,
    EmitterName::PhilipsLV223 => 23625,
    EmitterName::PhilipsSeaGiraffe50HC => 23670,
    EmitterName::PhimatJammer => 23675,
    EmitterName::PICOSAR => 23680,
    EmitterName::PILOTMK2 => 23685,
    EmitterName::PinJib => 23690,
    EmitterName::PinTip => 23695,
    EmitterName::PL11 => 23700,
    EmitterName::PL12 => 23701,
    EmitterName::PL15 => 23704,
    EmitterName::PlankShad => 23710,
    EmitterName::PlankShave => 23715,
    EmitterName::PlankShaveA => 23760,
    EmitterName::PlankShaveB => 23805,
    EmitterName::PlateSteer => 23850,
    EmitterName::PlesseyAWS1 => 23895,
    EmitterName::PlesseyAWS2 => 23925,
    EmitterName::PlesseyAWS4 => 23940,
    EmitterName::PlesseyAWS6 => 23985,
    EmitterName::PlesseyRJ => 23990,
    EmitterName::PlesseyType904 => 24020,
    EmitterName::Plesseytype996 => 24030,
    EmitterName::PlesseyAWS9 => 24035,
    EmitterName::PlinthNet => 24075,
    EmitterName::Pluto => 24095,
    EmitterName::PNABRubinDownBeat => 24098,
    EmitterName::POHJANPALO => 24100,
    EmitterName::PolimentK => 24110,
    EmitterName::POLLUX => 24120,
    EmitterName::PotGroup => 24165,
    EmitterName::PotGroupMG => 24210,
    EmitterName::PotGroupTA => 24255,
    EmitterName::PotGroupTT => 24300,
    EmitterName::PorkFist => 24320,
    EmitterName::PorkTrough => 24345,
    EmitterName::PozitivME15P26 => 24385,
    EmitterName::PositiveME1_2 => 24386,
    EmitterName::PostBow => 24390,
    EmitterName::PostLamp => 24435,
    EmitterName::PotDrum => 24480,
    EmitterName::PotHead => 24525,
    EmitterName::PotShot => 24535,
    EmitterName::PraetorianCountermeasuresSuite => 24540,
    EmitterName::PRIMUS30A => 24569,
    EmitterName::PRIMUS40WXD => 24570,
    EmitterName::Primus400 => 24614,
    EmitterName::PRIMUS300SL => 24615,
    EmitterName::Primus500 => 24616,
    EmitterName::Primus650 => 24617,
    EmitterName::Primus700 => 24618,
    EmitterName::PRIMUS800 => 24619,
    EmitterName::Primus3000 => 24620,
    EmitterName::Primus870 => 24622,
    EmitterName::PRORA => 24630,
    EmitterName::PRS2 => 24631,
    EmitterName::PRS3Argon2 => 24633,
    EmitterName::PRORAPA1660 => 24635,
    EmitterName::PS15 => 24640,
    EmitterName::PS05A => 24650,
    EmitterName::PS46A => 24660,
    EmitterName::PS70R => 24705,
    EmitterName::PS171R => 24706,
    EmitterName::PS860 => 24707,
    EmitterName::PS870 => 24709,
    EmitterName::PS890 => 24710,
    EmitterName::PSM33 => 24720,
    EmitterName::PuffBall => 24750,
    EmitterName::QuadradarVI => 24755,
    EmitterName::QW1A => 24757,
    EmitterName::Phazotron1RS21E => 24758,
    EmitterName::PVS200 => 24760,
    EmitterName::PVS2000 => 24761,
    EmitterName::R330ZH => 24768,
    EmitterName::R045 => 24769,
    EmitterName::R76 => 24770,
    EmitterName::R934B => 24771,
    EmitterName::RA20 => 24772,
    EmitterName::RA723 => 24774,
    EmitterName::R41XXX => 24775,
    EmitterName::RAC3D => 24776,
    EmitterName::RAC30 => 24780,
    EmitterName::R423AM => 24781,
    EmitterName::Racal1229 => 24795,
    EmitterName::DECCA1230 => 24800,
    EmitterName::RacalAC2690BT => 24840,
    EmitterName::RacalDecca1216 => 24885,
    EmitterName::RacalDECCA20V909 => 24890,
    EmitterName::RacalDecca360 => 24930,
    EmitterName::RacalDeccaAC1290 => 24975,
    EmitterName::RacalDeccaTM1229 => 25020,
    EmitterName::RacalDeccaTM1626 => 25065,
    EmitterName::RacalDRBN34A => 25110,
    EmitterName::RADAMHR => 25150,
    EmitterName::Radar24 => 25155,
    EmitterName::RADARPILOT1000 => 25170,
    EmitterName::RADARPILOT1100 => 25171,
    EmitterName::RAJENDRA => 25180,
    EmitterName::RAN7S => 25200,
    EmitterName::RAN10S => 25205,
    EmitterName::RAN11LX => 25245,
    EmitterName::Rani => 25250,
    EmitterName::RAPHAELTH => 25259,
    EmitterName::RapierTA => 25260,
    EmitterName::Rapier2000TA => 25265,
    EmitterName::RapierMG => 25270,
    EmitterName::RASCAR3400C => 25273,
    EmitterName::Rashmi => 25275,
    EmitterName::Rasit => 25276,
    EmitterName::Rasit3190B => 25277,
    EmitterName::RAT31DLM => 25278,
    EmitterName::RAT31DL => 25279,
    EmitterName::RAT31S => 25280,
    EmitterName::RAT8S => 25281,
    EmitterName::RAT31SL => 25282,
    EmitterName::RavenES05 => 25283,
    EmitterName::RATAC => 25285,
    EmitterName::RAWL => 25286,
    EmitterName::Rattler => 25287,
    EmitterName::RAWS => 25288,
    EmitterName::RAWL02 => 25289,
    EmitterName::Raytheon1220 => 25290,
    EmitterName::RAWS03 => 25291,
    EmitterName::Raytheon1210xx => 25292,
    EmitterName::Raytheon1302 => 25300,
    EmitterName::Raytheon1500 => 25335,
    EmitterName::Raytheon1645 => 25380,
    EmitterName::Raytheon1650 => 25425,
    EmitterName::Raytheon1900 => 25470,
    EmitterName::Raytheon2502 => 25515,
    EmitterName::RaytheonAnschutzNautoScanNX => 25530,
    EmitterName::RaytheonR41 => 25540,
    EmitterName::RaytheonRM10256X => 25545,
    EmitterName::RaytheonSL72 => 25550,
    EmitterName::RaytheonTM16506X => 25560,
    EmitterName::RaytheonTM166012S => 25605,
    EmitterName::RAY1220XR => 25630,
    EmitterName::RAY1401 => 25635,
    EmitterName::Ray2900 => 25650,
    EmitterName::RaymarineRD218 => 25694,
    EmitterName::Raypath => 25695,
    EmitterName::RaytheonPathfinderSTmk2 => 25698,
    EmitterName::RBE2 => 25735,
    EmitterName::RBE2AA => 25736,
    EmitterName::RCT180 => 25739,
    EmitterName::RDM => 25740,
    EmitterName::RDM3 => 25745,
    EmitterName::RDI => 25750,
    EmitterName::RDY => 25760,
    EmitterName::RDY3 => 25762,
    EmitterName::RDS86 => 25770,
    EmitterName::RDN72 => 25785,
    EmitterName::RDR1A => 25830,
    EmitterName::RDR1E => 25835,
    EmitterName::RDR4A => 25840,
    EmitterName::RDR150 => 25845,
    EmitterName::RDR160XD => 25850,
    EmitterName::RDR230HP => 25853,
    EmitterName::RDR1100 => 25855,
    EmitterName::RDR1150 => 25860,
    EmitterName::RDR1200 => 25875,
    EmitterName::RDR1400 => 25885,
    EmitterName::RDR1400C => 25890,
    EmitterName::RDR4000_1 => 25891,
    EmitterName::RDR4000_2 => 25892,
    EmitterName::RDR1500 => 25895,
    EmitterName::RiceCake => 25896,
    EmitterName::RDR1600 => 25897,
    EmitterName::RDR2000 => 25898,
    EmitterName::RDR1700B => 25899,
    EmitterName::Remora => 25900,
    EmitterName::RiceField => 25901,
    EmitterName::REC1A => 25902,
    EmitterName::REC1B => 25903,
    EmitterName::REC1C => 25904,
    EmitterName::ResolveEAS => 25906,
    EmitterName::RiceCupC => 25907,
    EmitterName::REL6E => 25908,
    EmitterName::REC1 => 25909,
    EmitterName::RiceBowl => 25910,
    EmitterName::ImprovedReporter => 25911,
    EmitterName::RiceBug => 25912,
    EmitterName::RiceCup => 25915,
    EmitterName::RiceLamp => 25920,
    EmitterName::REVATHI => 25940,
    EmitterName::REZONANS => 25950,
    EmitterName::RGMUGM109B => 25955,
    EmitterName::RGMUGM109EHomingRadar => 25958,
    EmitterName::RicePad => 25965,
    EmitterName::RKL526 => 25966,
    EmitterName::RKZ764 => 25967,
    EmitterName::RKZ766 => 25968,
    EmitterName::RKL165 => 25969,
    EmitterName::RKL609 => 25970,
    EmitterName::RKL800 => 25971,
    EmitterName::RKZ761 => 25972,
    EmitterName::RKZ2000 => 25973,
    EmitterName::RIS4CA => 25974,
    EmitterName::RL2000 => 25975,
    EmitterName::RL41 => 25976,
    EmitterName::RIR778 => 25977,
    EmitterName::RISAT => 25978,
    EmitterName::RLMS => 25979,
    EmitterName::RimHatESMECMSuite => 25980,
    EmitterName::RiceScoop => 26008,
    EmitterName::RiceScreen => 26010,
    EmitterName::DECCATM1070A => 26011,
    EmitterName::RM370BT => 26015,
    EmitterName::RockwellCollinsFMR200X => 26020,
    EmitterName::RM2312 => 26040,
    EmitterName::RM23123 => 26041,
    EmitterName::RMT0100A => 26043,
    EmitterName::RN222 => 26045,
    EmitterName::ROLAND2 => 26053,
    EmitterName::ROLANDBN => 26055,
    EmitterName::ROLANDMG => 26100,
    EmitterName::ROLANDTA => 26145,
    EmitterName::ROLANDTT => 26190,
    EmitterName::ROTODOME => 26210,
    EmitterName::RoundBall => 26235,
    EmitterName::RP379DTiradaD => 26236,
    EmitterName::RP3 => 26237,
    EmitterName::RP4G => 26238,
    EmitterName::RoundHouse => 26280,
    EmitterName::RoundHouseB => 26325,
    EmitterName::RPR117 => 26326,
    EmitterName::RS0250 => 26327,
    EmitterName::RSR210N => 26328,
    EmitterName::RT0250 => 26330,
    EmitterName::RTA4100 => 26340,
    EmitterName::RTN1A => 26350,
    EmitterName::RTN25X => 26353,
    EmitterName::RTS6400 => 26354,
    EmitterName::RubyRake => 26355,
    EmitterName::RumSling => 26360,
    EmitterName::RumSlingRO => 26361,
    EmitterName::RumSlingTT => 26362,
    EmitterName::RV2 => 26370,
    EmitterName::RV3 => 26415,
    EmitterName::RV5 => 26460,
    EmitterName::RV10 => 26505,
    EmitterName::RV15M => 26506,
    EmitterName::RV17 => 26550,
    EmitterName::RV18 => 26595,
    EmitterName::RV21 => 26596,
    EmitterName::RV21B => 26597,
    EmitterName::RV25 => 26600,
    EmitterName::RV377 => 26610,
    EmitterName::RVUM => 26640,
    EmitterName::RWD8 => 26650,
    EmitterName::RXN260 => 26660,
    EmitterName::RyeHouse => 26665,
    EmitterName::S1810CD => 26670,
    EmitterName::Sahab => 26672,
    EmitterName::Salamandre => 26673,
    EmitterName::SamyungSMR7200 => 26674,
    EmitterName::S1850M => 26675,
    EmitterName::S511 => 26676,
    EmitterName::S512 => 26677,
    EmitterName::S600 => 26678,
    EmitterName::S604 => 26679,
    EmitterName::S763LANZA3D => 26680,
    EmitterName::S613 => 26681,
    EmitterName::S631 => 26682,
    EmitterName::S654 => 26683,
    EmitterName::S669 => 26684,
    EmitterName::SA2Guideline => 26685,
    EmitterName::S244 => 26686,
    EmitterName::S711 => 26687,
    EmitterName::SA3Goa => 26730,
    EmitterName::SA8GeckoDT => 26775,
    EmitterName::SA12TELARILL => 26795,
    EmitterName::SA23TELIlluminator => 26797,
    EmitterName::SABERM60 => 26799,
    EmitterName::Samovar => 26805,
    EmitterName::Sampson => 26810,
    EmitterName::SAN7GadflyTI => 26820,
    EmitterName::SAN11Cads1UN => 26865,
    EmitterName::SaccadeMH => 26900,
    EmitterName::SaltPotAB => 26910,
    EmitterName::SAP14 => 26920,
    EmitterName::SAP518 => 26925,
    EmitterName::SAP518M => 26926,
    EmitterName::SandBar => 26930,
    EmitterName::SAPechora2MTT => 26935,
    EmitterName::SAR => 26945,
    EmitterName::SATRAPE => 26950,
    EmitterName::SATURNEII => 26955,
    EmitterName::ScanCan => 27000,
    EmitterName::ScanFix => 27045,
    EmitterName::ScanOdd => 27090,
    EmitterName::SCANTER1002 => 27095,
    EmitterName::SCANTER2001 => 27100,
    EmitterName::SCANTER2002 => 27101,
    EmitterName::SCANTER2100 => 27102,
    EmitterName::SCANTER4002 => 27109,
    EmitterName::SCANTER4100 => 27110,
    EmitterName::SCANTER5102 => 27111,
    EmitterName::SCANTER5502 => 27113,
    EmitterName::SCANTER6000 => 27115,
    EmitterName::SCANTER6002 => 27116,
    EmitterName::ScanterMil009 => 27125,
    EmitterName::ScanThree => 27135,
    EmitterName::SCANTERMILS => 27137,
    EmitterName::ScanterSMR => 27139,
    EmitterName::SCANTER => 27140,
    EmitterName::SCORADS => 27141,
    EmitterName::Scimitar => 27142,
    EmitterName::STAR2000 => 27143,
    EmitterName::SCOREBOARD => 27150,
    EmitterName::ScoopPair => 27175,
    EmitterName::ScoupPlate => 27180,
    EmitterName::SCOUT => 27183,
    EmitterName::SCR584 => 27190,
    EmitterName::SeaArcher2 => 27225,
    EmitterName::SeaBasedXBand => 27230,
    EmitterName::SeaDragon => 27235,
    EmitterName::SeaEagle => 27239,
    EmitterName::SeaEagleSC => 27240,
    EmitterName::SEAFALCON => 27245,
    EmitterName::SeaGiraffeAMB => 27248,
    EmitterName::Seaguard => 27251,
    EmitterName::SeaHawkSHNX12 => 27260,
    EmitterName::SeaHunter4MG => 27270,
    EmitterName::SeaHunter4TA => 27315,
    EmitterName::SeaHunter4TT => 27360,
    EmitterName::SeaGull => 27405,
    EmitterName::SeaMaster400 => 27430,
    EmitterName::SeaNet => 27450,
    EmitterName::SeaSparrow => 27451,
    EmitterName::SeaSpray => 27495,
    EmitterName::SeaTiger => 27540,
    EmitterName::SeaTigerM => 27550,
    EmitterName::Seastar => 27560,
    EmitterName::Searchwater => 27570,
    EmitterName::Searchwater2000 => 27575,
    EmitterName::SEASONDE => 27580,
    EmitterName::SEASPRAY7000E => 27582,
    EmitterName::SeaVue => 27583,
    EmitterName::SeasprayMk3 => 27584,
    EmitterName::SeleniaOrion7 => 27585,
    EmitterName::Seleniatype912 => 27630,
    EmitterName::SelenniaRAN12LX => 27675,
    EmitterName::SeleniaRAN20S => 27680,
    EmitterName::SelenniaRTN10X => 27720,
    EmitterName::SeliniaARP1645 => 27765,
    EmitterName::SENTIRM20 => 27770,
    EmitterName::SERDAR => 27771,
    EmitterName::SERHAT => 27773,
    EmitterName::Series10CompactSubmarineRadarCSR => 27775,
    EmitterName::SERIES52 => 27780,
    EmitterName::SERIES320 => 27790,
    EmitterName::SG => 27800,
    EmitterName::SGJ02 => 27802,
    EmitterName::SGJ03 => 27803,
    EmitterName::SGR10200 => 27810,
    EmitterName::SGR10302 => 27855,
    EmitterName::SGR104 => 27870,
    EmitterName::Shahed129SAR => 27873,
    EmitterName::SHAHINE => 27875,
    EmitterName::SheetBend => 27900,
    EmitterName::SheetCurve => 27945,
    EmitterName::SHIKRA => 27980,
    EmitterName::ShipGlobe => 27990,
    EmitterName::ShipWheel => 28035,
    EmitterName::SGR114 => 28080,
    EmitterName::ShoreWalkA => 28125,
    EmitterName::ShortHorn => 28170,
    EmitterName::ShotDome => 28215,
    EmitterName::SideGlobeJN => 28260,
    EmitterName::PRV11 => 28280,
    EmitterName::SideWalkA => 28305,
    EmitterName::SignaalDA02 => 28350,
    EmitterName::SignaalDA05 => 28395,
    EmitterName::SignaalDA08 => 28440,
    EmitterName::SignaalDA082LS => 28445,
    EmitterName::SignaalLW04 => 28480,
    EmitterName::SignaalLW08 => 28485,
    EmitterName::SignaalLWOR => 28530,
    EmitterName::SignaalM45 => 28575,
    EmitterName::SignaalMW08 => 28620,
    EmitterName::SignaalSMART => 28665,
    EmitterName::SignaalSTING => 28710,
    EmitterName::SignaalSTIR => 28755,
    EmitterName::SignaalSTIR1_8M => 28760,
    EmitterName::SignaalSTIR24M => 28770,
    EmitterName::SignaalWM202 => 28800,
    EmitterName::SignaalWM25 => 28845,
    EmitterName::SignaalWM27 => 28890,
    EmitterName::SignaalWM28 => 28935,
    EmitterName::SignaalZW01 => 28980,
    EmitterName::SignaalZW06 => 29025,
    EmitterName::SignaalZW07 => 29030,
    EmitterName::SignaalZW0800 => 29035,
    EmitterName::SIMRAD3G => 29043,
    EmitterName::SIMRAD4G => 29045,
    EmitterName::SimradCA54 => 29050,
    EmitterName::SIMRADHalo6 => 29060,
    EmitterName::SkiPole => 29070,
    EmitterName::SkinHead => 29115,
    EmitterName::SkipSpin => 29160,
    EmitterName::SKYFENDER => 29172,
    EmitterName::SkyWave => 29175,
    EmitterName::SkyguardB => 29180,
    EmitterName::SKYGUARDTA => 29185,
    EmitterName::SKYGUARDTT => 29190,
    EmitterName::SkyguardLR => 29191,
    EmitterName::Skymaster => 29200,
    EmitterName::SkyWatch => 29205,
    EmitterName::SkyRanger => 29210,
    EmitterName::SKYSHADOW => 29215,
    EmitterName::SKYSHIELDTA => 29220,
    EmitterName::SL => 29250,
    EmitterName::SLALQ234 => 29270,
    EmitterName::SlapShot => 29295,
    EmitterName::SlapShotG => 29297,
    EmitterName::SLC2 => 29300,
    EmitterName::SLC2E => 29301,
    EmitterName::SLC4 => 29305,
    EmitterName::SlimNet => 29340,
    EmitterName::SlotBackA => 29385,
    EmitterName::SlotBackILL => 29400,
    EmitterName::SlotBackB => 29430,
    EmitterName::SlotBackIV => 29431,
    EmitterName::SlotBackBTopaz => 29432,
    EmitterName::SlotBackE => 29433,
    EmitterName::SlotBackG => 29434,
    EmitterName::SlotBackVI => 29435,
    EmitterName::SlotRest => 29440,
    EmitterName::SM674AUPM => 29450,
    EmitterName::SMA3RM => 29475,
    EmitterName::SMA3RM20 => 29520,
    EmitterName::SMA3RM20ASMG => 29565,
    EmitterName::SMABPS704 => 29610,
    EmitterName::SMASPIN749V2 => 29655,
    EmitterName::SMASPN703 => 29700,
    EmitterName::SMASPN751 => 29745,
    EmitterName::SMASPOS748 => 29790,
    EmitterName::SMASPQ2 => 29835,
    EmitterName::SMASPQ2D => 29880,
    EmitterName::SMASPQ701 => 29925,
    EmitterName::SMASPS702 => 29970,
    EmitterName::SMAST2OTOMATIIMH => 30015,
    EmitterName::SR47A => 30016,
    EmitterName::SMA718Beacon => 30060,
    EmitterName::SmallFred => 30065,
    EmitterName::SMARTS => 30068,
    EmitterName::SMARTSMk2 => 30069,
    EmitterName::SMARTL => 30070,
    EmitterName::SM932 => 30072,
    EmitterName::SmogLamp => 30075,
    EmitterName::SnapShot => 30080,
    EmitterName::SnoopDrift => 30105,
    EmitterName::SnoopHalf => 30140,
    EmitterName::SnoopHead => 30150,
    EmitterName::SnoopPair => 30195,
    EmitterName::SnoopPing1 => 30200,
    EmitterName::SnoopPlate => 30240,
    EmitterName::SnoopPing => 30255,
    EmitterName::SnoopSlab => 30285,
    EmitterName::SnoopTray => 30330,
    EmitterName::SnoopTray1 => 30375,
    EmitterName::SnoopTray2 => 30420,
    EmitterName::SNOOPTRAY3 => 30421,
    EmitterName::SnoopWatch => 30465,
    EmitterName::_9S18M1 => 30470,
    EmitterName::_9S18M1E => 30471,
    EmitterName::SPB7 => 30475,
    EmitterName::SnowDrop => 30480,
    EmitterName::SNW10 => 30490,
    EmitterName::SO1 => 30510,
    EmitterName::SO12 => 30520,
    EmitterName::SOACommunist => 30555,
    EmitterName::SO69 => 30580,
    EmitterName::SockEye => 30600,
    EmitterName::SOM64 => 30645,
    EmitterName::Sopka => 30650,
    EmitterName::Sorbsiya => 30660,
    EmitterName::SorbtsiyaL005 => 30661,
    EmitterName::SorbtsiyaL005S => 30662,
    EmitterName::SPADASIR => 30665,
    EmitterName::SPADATT => 30670,
    EmitterName::SparrowILL => 30690,
    EmitterName::SPERRYRASCAR => 30691,
    EmitterName::SPECTRA => 30692,
    EmitterName::SPEAR3MMW => 30696,
    EmitterName::SperryM3 => 30700,
    EmitterName::SPERRYVISIONMASTERFT => 30701,
    EmitterName::SPEXER2000 => 30710,
    EmitterName::SPG53F => 30735,
    EmitterName::SPG70 => 30780,
    EmitterName::SPG74 => 30825,
    EmitterName::SPG75 => 30870,
    EmitterName::SPG76 => 30915,
    EmitterName::SpinScanA => 30960,
    EmitterName::SpinScanB => 31005,
    EmitterName::SpinTrough => 31050,
    EmitterName::SPINODADDAWTR => 31070,
    EmitterName::SPJ40 => 31080,
    EmitterName::SplashDrop => 31095,
    EmitterName::SPN2 => 31096,
    EmitterName::SPN4 => 31097,
    EmitterName::SPN30 => 31100,
    EmitterName::SPN35A => 31140,
    EmitterName::SPN41 => 31185,
    EmitterName::SPN42 => 31230,
    EmitterName::SPN43A => 31275,
    EmitterName::SPN43B => 31320,
    EmitterName::SPN44 => 31365,
    EmitterName::SPN46 => 31410,
    EmitterName::SPN703 => 31455,
    EmitterName::SPN720 => 31475,
    EmitterName::SPN7281 => 31500,
    EmitterName::SPN748 => 31545,
    EmitterName::SPN750 => 31590,
    EmitterName::SPO8 => 31592,
    EmitterName::SPN753G => 31593,
    EmitterName::SpongeCake => 31635,
    EmitterName::P12 => 31680,
    EmitterName::P18SpoonRestA => 31681,
    EmitterName::P18SpoonRestB => 31682,
    EmitterName::P18SpoonRestC => 31684,
    EmitterName::P18MH2 => 31685,
    EmitterName::SporkRest => 31700,
    EmitterName::SPQ712 => 31725,
    EmitterName::SPR2 => 31730,
    EmitterName::SPR51 => 31740,
    EmitterName::SPS5FASOL => 31765,
    EmitterName::SPS6 => 31766,
    EmitterName::SPS6C => 31770,
    EmitterName::SPS10F => 31815,
    EmitterName::SPS12 => 31860,
    EmitterName::SPS22NBUKET => 31870,
    EmitterName::SPS33NBUKET => 31875,
    EmitterName::SPS44NBUKET => 31880,
    EmitterName::SPS55NBUKET => 31890,
    EmitterName::SPS58 => 31905,
    EmitterName::SPS62 => 31925,
    EmitterName::SPS100K => 31935,
    EmitterName::SPS64 => 31950,
    EmitterName::SPS141 => 31951,
    EmitterName::SPS142 => 31952,
    EmitterName::SPS143 => 31953,
    EmitterName::SPS151 => 31955,
    EmitterName::SPS152 => 31956,
    EmitterName::SPS153 => 31957,
    EmitterName::SPS160Geran => 31959,
    EmitterName::SPS161 => 31960,
    EmitterName::SPS95K => 31970,
    EmitterName::SPS171Jammer => 31971,
    EmitterName::SPS172Jammer => 31972,
    EmitterName::SPS768 => 31995,
    EmitterName::SPS540K => 32010,
    EmitterName::SPS550KMF => 32020,
    EmitterName::SPS774 => 32040,
    EmitterName::SPY790 => 32085,
    EmitterName::SquareHead => 32130,
    EmitterName::SquarePair => 32175,
    EmitterName::SquareSlot => 32220,
    EmitterName::SquareTie => 32265,
    EmitterName::Shmel => 32310,
    EmitterName::P15M => 32330,
    EmitterName::SquintEye => 32355,
    EmitterName::SQUIRE => 32365,
    EmitterName::SR2410C => 32373,
    EmitterName::SR47BG => 32375,
    EmitterName::SREM5 => 32385,
    EmitterName::SRN6 => 32400,
    EmitterName::SRN15 => 32445,
    EmitterName::SRN206 => 32455,
    EmitterName::SRN745 => 32490,
    EmitterName::SRO1 => 32535,
    EmitterName::SRO2 => 32580,
    EmitterName::SSC2BSamletMG => 32625,
    EmitterName::SSN2ABCSSC => 32670,
    EmitterName::SSN2ABCSSC2A3A2MH => 32715,
    EmitterName::SSN2CSeeker => 32760,
    EmitterName::SSN2CDStyx => 32805,
    EmitterName::SSN2CDStyxCDMH => 32850,
    EmitterName::SSN2CStyxAL => 32851,
    EmitterName::SSN2DStyxAL => 32852,
    EmitterName::SSN2SSCSSC18BN => 32895,
    EmitterName::SSN3BSepalAL => 32940,
    EmitterName::SSN3BSepalMH => 32985,
    EmitterName::SSN7Starbright => 33025,
    EmitterName::SSN9Siren => 33030,
    EmitterName::SSN9SirenAL => 33075,
    EmitterName::SSN9SirenMH => 33120,
    EmitterName::SSN10AFL10mmWMH => 33125,
    EmitterName::SSN11Nasr1mmWMH => 33140,
    EmitterName::SSN12SandboxAL => 33165,
    EmitterName::SSN12YJ83JmmWMH => 33166,
    EmitterName::SSN12SandboxMH => 33210,
    EmitterName::SSNX13Shredder => 33230,
    EmitterName::SSN14BSilexAL => 33231,
    EmitterName::SSN19Shipwreck => 33255,
    EmitterName::SSN19ShipwreckAL => 33300,
    EmitterName::SSN19ShipwreckMH => 33345,
    EmitterName::SSN21AL => 33390,
    EmitterName::SSN22Sunburn => 33435,
    EmitterName::SSN22SunburnMH => 33480,
    EmitterName::SSN22SunburnAL => 33481,
    EmitterName::SSN25SwitchbladeMH => 33483,
    EmitterName::SSN26StrobileMMWMH => 33484,
    EmitterName::SSN27SizzlerMH => 33485,
    EmitterName::SSN27ASizzlerAL => 33486,
    EmitterName::STINGEOMk2 => 33505,
    EmitterName::STIR1_2EOMk2 => 33510,
    EmitterName::STIR2_4HPMk2 => 33511,
    EmitterName::StoneCake => 33525,
    EmitterName::STR41 => 33570,
    EmitterName::ST858 => 33580,
    EmitterName::START1M => 33582,
    EmitterName::STENTOR => 33584,
    EmitterName::StormShadowAHR => 33585,
    EmitterName::STRAIGHTFLUSH => 33586,
    EmitterName::StraightFlushTA => 33590,
    EmitterName::StraightFlushTT => 33595,
    EmitterName::StraightFlushILL => 33600,
    EmitterName::StrikeOut => 33615,
    EmitterName::StrutCurve => 33660,
    EmitterName::StrutPair => 33705,
    EmitterName::StrutPair1 => 33750,
    EmitterName::StrutPair2 => 33795,
    EmitterName::SunVisor => 33840,
    EmitterName::SUPERDARN => 33850,
    EmitterName::Superfledermaus => 33860,
    EmitterName::Supersearcher => 33870,
    EmitterName::SwiftRod1 => 33885,
    EmitterName::SwiftRod2 => 33930,
    EmitterName::SYMPHONY => 33933,
    EmitterName::SYNAPSISMk2 => 33935,
    EmitterName::SY80 => 33950,
    EmitterName::T1166 => 33975,
    EmitterName::T1171 => 34020,
    EmitterName::T1202 => 34040,
    EmitterName::T6004 => 34065,
    EmitterName::T6031 => 34110,
    EmitterName::T8067 => 34155,
    EmitterName::T8068 => 34200,
    EmitterName::T8124 => 34245,
    EmitterName::T8408 => 34290,
    EmitterName::T8911 => 34335,
    EmitterName::T8937 => 34380,
    EmitterName::T8944 => 34425,
    EmitterName::T8987 => 34470,
    EmitterName::TA10K => 34480,
    EmitterName::JY11B => 34500,
    EmitterName::TACANSURF => 34505,
    EmitterName::P14_2 => 34515,
    EmitterName::TALLKINGB => 34516,
    EmitterName::TALLKINGC => 34517,
    EmitterName::TallMike => 34560,
    EmitterName::TallPath => 34605,
    EmitterName::TDR94 => 34607,
    EmitterName::TeaSpoon => 34610,
    EmitterName::TeamPlay => 34620,
    EmitterName::TALISMAN => 34624,
    EmitterName::TeamWork => 34625,
    EmitterName::T1135 => 34626,
    EmitterName::TANCANSURF => 34627,
    EmitterName::TECSAR => 34628,
    EmitterName::TERRASARX => 34629,
    EmitterName::TESAR => 34630,
    EmitterName::THAADGBR => 34640,
    EmitterName::ThalesRDY2 => 34644,
    EmitterName::ThalesNederlandSignaalAPAR => 34645,
    EmitterName::ThalesScorpionJammer => 34646,
    EmitterName::ThalesVariant => 34647,
    EmitterName::ThalesICMSJammer => 34648,
    EmitterName::ThalesIMEWSJammer => 34649,
    EmitterName::THD225 => 34650,
    EmitterName::THD1012 => 34655,
    EmitterName::THD1098 => 34660,
    EmitterName::THD1213 => 34665,
    EmitterName::THD1940 => 34670,
    EmitterName::THD1955Palmier => 34680,
    EmitterName::THD5500 => 34695,
    EmitterName::ThirdofKhordad => 34700,
    EmitterName::ThinPath => 34740,
    EmitterName::PRV9 => 34785,
    EmitterName::PRV16 => 34786,
    EmitterName::ThompsonCSFTA10 => 34795,
    EmitterName::ThompsonCSFTHD1040Neptune => 34830,
    EmitterName::ThompsonCSFCalypso => 34875,
    EmitterName::ThompsonCSFCASTOR => 34920,
    EmitterName::ThompsonCSFCastorII => 34965,
    EmitterName::ThomsonCSFDomino30 => 34966,
    EmitterName::ThompsonCSFDRBC32A => 35010,
    EmitterName::ThompsonCSFDRBJ11DE => 35055,
    EmitterName::ThompsonCSFDRBV15A => 35100,
    EmitterName::ThompsonCSFDRBV15C => 35145,
    EmitterName::ThompsonCSFDRBV22D => 35190,
    EmitterName::ThompsonCSFDRBV23B => 35235,
    EmitterName::ThompsonCSFDRUA33 => 35280,
    EmitterName::ThompsonCSFMarsDRVB21A => 35325,
    EmitterName::ThompsonCSFSeaTiger => 35370,
    EmitterName::ThompsonCSFTriton => 35415,
    EmitterName::ThompsonCSFVegawithDRBC32E => 35460,
    EmitterName::ThomsonENR => 35470,
    EmitterName::ThomsonRDI => 35475,
    EmitterName::TierIIPlus => 35477,
    EmitterName::TPS755 => 35478,
    EmitterName::TPS830K => 35479,
    EmitterName::TRS2105 => 35480,
    EmitterName::TR23K => 35481,
    EmitterName::TR23MR => 35482,
    EmitterName::TRAC2100 => 35483,
    EmitterName::TRAC2300 => 35484,
    EmitterName::HT223 => 35485,
    EmitterName::TRADEX => 35486,
    EmitterName::TRAILXI => 35487,
    EmitterName::TRD1211 => 35488,
    EmitterName::TRD1235 => 35489,
    EmitterName::TRS2100 => 35490,
    EmitterName::TRACNG => 35491,
    EmitterName::TieRods => 35505,
    EmitterName::_36D6 => 35550,
    EmitterName::TinTrap => 35570,
    EmitterName::TIRSPONDER => 35580,
    EmitterName::TK25E5 => 35583,
    EmitterName::TMKMk2 => 35585,
    EmitterName::TMXMk2 => 35586,
    EmitterName::ToadStool1 => 35595,
    EmitterName::ToadStool2 => 35640,
    EmitterName::ToadStool3 => 35685,
    EmitterName::ToadStool4 => 35730,
    EmitterName::ToadStool5 => 35775,
    EmitterName::TokenB => 35785,
    EmitterName::TombStone => 35800,
    EmitterName::Tonson => 35810,
    EmitterName::TopBow => 35820,
    EmitterName::TopDome => 35865,
    EmitterName::TopKnot => 35910,
    EmitterName::TopMesh => 35955,
    EmitterName::TopPair => 36000,
    EmitterName::TopPlate => 36045,
    EmitterName::TopPlateB => 36046,
    EmitterName::TopSail => 36090,
    EmitterName::TYPE208 => 36120,
    EmitterName::TopSteer => 36135,
    EmitterName::TopTrough => 36180,
    EmitterName::TornadoGMR => 36200,
    EmitterName::TornadoTFR => 36201,
    EmitterName::ScrumHalfTA => 36220,
    EmitterName::ScrumHalfTT => 36225,
    EmitterName::TORM2TER => 36226,
    EmitterName::ScrumHalfMG => 36230,
    EmitterName::TrackDish => 36270,
    EmitterName::TR47C => 36300,
    EmitterName::TORSOM => 36315,
    EmitterName::TQN2 => 36320,
    EmitterName::TrapDoor => 36360,
    EmitterName::TRD1500 => 36365,
    EmitterName::TrickShotTAR => 36370,
    EmitterName::TrickShotTER => 36371,
    EmitterName::TRISPONDE => 36380,
    EmitterName::TRML => 36381,
    EmitterName::TRS2215 => 36382,
    EmitterName::TRML3D => 36383,
    EmitterName::TRMS => 36384,
    EmitterName::TRS2056 => 36385,
    EmitterName::TRS3010 => 36386,
    EmitterName::TRS2060 => 36387,
    EmitterName::TRS2245 => 36388,
    EmitterName::TRS2310 => 36389,
    EmitterName::TritonG => 36390,
    EmitterName::TRS22XX => 36391,
    EmitterName::TRS3030 => 36400,
    EmitterName::TRS3033 => 36405,
    EmitterName::TRS3203 => 36417,
    EmitterName::TRS3405 => 36420,
    EmitterName::TRS3410 => 36425,
    EmitterName::TRS3415 => 36430,
    EmitterName::TRS3D => 36440,
    EmitterName::TRS3D16 => 36441,
    EmitterName::TRS3D16ES => 36442,
    EmitterName::TRS3D32 => 36443,
    EmitterName::TRS4D => 36446,
    EmitterName::TRSC => 36447,
    EmitterName::TRSN => 36450,
    EmitterName::TS4478A => 36460,
    EmitterName::TSE5000 => 36495,
    EmitterName::TSR333 => 36540,
    EmitterName::TSR793 => 36550,
    EmitterName::TubBrick => 36563,
    EmitterName::TubeArm => 36585,
    EmitterName::TW1374 => 36590,
    EmitterName::TW1378 => 36595,
    EmitterName::TW1446 => 36600,
    EmitterName::TwinEyes => 36630,
    EmitterName::TwinPill => 36675,
    EmitterName::TwinScan => 36720,
    EmitterName::TwinScanRo => 36765,
    EmitterName::TwoSpot => 36810,
    EmitterName::Type071LPD => 36821,
    EmitterName::Type212JA => 36827,
    EmitterName::Type221JA => 36830,
    EmitterName::Type223 => 36835,
    EmitterName::Type80ASM1 => 36836,
    EmitterName::Type120 => 36838,
    EmitterName::Type208 => 36840,
    EmitterName::Type222 => 36843,
    EmitterName::Type226 => 36846,
    EmitterName::Type232H => 36850,
    EmitterName::TYPE245 => 36853,
    EmitterName::TYPE262 => 36855,
    EmitterName::TYPE275 => 36900,
    EmitterName::TYPE278 => 36905,
    EmitterName::TYPE293 => 36945,
    EmitterName::Type341 => 36946,
    EmitterName::TYPE313 => 36947,
    EmitterName::Type305A => 36948,
    EmitterName::Type334 => 36960,
    EmitterName::Type342 => 36985,
    EmitterName::TYPE343SUNVISORB => 36990,
    EmitterName::Type344 => 36992,
    EmitterName::Type345 => 37010,
    EmitterName::Type346 => 37011,
    EmitterName::Type349A => 37033,
    EmitterName::TYPE347B => 37035,
    EmitterName::Type347G => 37038,
    EmitterName::Type359 => 37039,
    EmitterName::Type352 => 37040,
    EmitterName::Type360 => 37041,
    EmitterName::Type362ESR1SR47B => 37043,
    EmitterName::Type354 => 37045,
    EmitterName::Type366 => 37047,
    EmitterName::Type363 => 37048,
    EmitterName::Type364 => 37049,
    EmitterName::Type404A => 37050,
    EmitterName::Type405 => 37052,
    EmitterName::TYPE405J => 37053,
    EmitterName::Type408D => 37058,
    EmitterName::Type517B => 37059,
    EmitterName::Type518 => 37060,
    EmitterName::Type589 => 37070,
    EmitterName::TYPE651 => 37073,
    EmitterName::Type753_1 => 37075,
    EmitterName::Type702 => 37077,
    EmitterName::Type704 => 37078,
    EmitterName::Type753_2 => 37079,
    EmitterName::Type756 => 37080,
    EmitterName::TYPE713 => 37081,
    EmitterName::TYPE714 => 37082,
    EmitterName::TYPE702D => 37083,
    EmitterName::TYPE760 => 37084,
    EmitterName::Type760 => 37086,
    EmitterName::Type815 => 37090,
    EmitterName::Type793 => 37095,
    EmitterName::Type8A813 => 37100,
    EmitterName::TYPE901M => 37105,
    EmitterName::TYPE902 => 37110,
    EmitterName::Type902B => 37124,
    EmitterName::TYPE903 => 37125,
    EmitterName::TYPE909TI => 37170,
    EmitterName::TYPE909TT => 37215,
    EmitterName::TYPE910 => 37260,
    EmitterName::TYPE931 => 37265,
    EmitterName::TYPE965 => 37305,
    EmitterName::TYPE967 => 37350,
    EmitterName::TYPE968 => 37395,
    EmitterName::TYPE974 => 37440,
    EmitterName::TYPE975 => 37485,
    EmitterName::TYPE978 => 37530,
    EmitterName::Type981 => 37534,
    EmitterName::Type9813 => 37535,
    EmitterName::TYPE982 => 37540,
    EmitterName::Type984 => 37543,
    EmitterName::Type985 => 37544,
    EmitterName::TYPE992 => 37575,
    EmitterName::TYPE993 => 37620,
    EmitterName::TYPE994 => 37665,
    EmitterName::Type996 => 37670,
    EmitterName::Type997Artisan => 37675,
    EmitterName::TYPE1006_1 => 37710,
    EmitterName::TYPE1006_2 => 37755,
    EmitterName::TYPE1022 => 37800,
    EmitterName::Type1047 => 37810,
    EmitterName::Type1048 => 37815,
    EmitterName::Type1474 => 37825,
    EmitterName::Type1493 => 37828,
    EmitterName::ULTRA => 37840,
    EmitterName::UKMK10 => 37845,
    EmitterName::UPS220C => 37850,
    EmitterName::UPX110 => 37890,
    EmitterName::UPX27 => 37935,
    EmitterName::URN20 => 37980,
    EmitterName::UTESA => 37985,
    EmitterName::UTEST => 37990,
    EmitterName::URN25 => 38025,
    EmitterName::VIGILANT => 38035,
    EmitterName::VitebskL370Jammer => 38038,
    EmitterName::VOLEXIIIIV => 38045,
    EmitterName::VOLGA => 38046,
    EmitterName::VORONEZHDM => 38047,
    EmitterName::VOSTOK => 38048,
    EmitterName::VOSTOKE => 38049,
    EmitterName::VSR => 38050,
    EmitterName::VOSTOK3D => 38051,
    EmitterName::VSTARPT => 38055,
    EmitterName::W160 => 38058,
    EmitterName::W1028 => 38060,
    EmitterName::W8818 => 38070,
    EmitterName::W8838 => 38115,
    EmitterName::W8852 => 38120,
    EmitterName::WALLBOARD => 38140,
    EmitterName::WallRust => 38150,
    EmitterName::WAS74S => 38160,
    EmitterName::WaspHead => 38205,
    EmitterName::WATCHDOG => 38210,
    EmitterName::WatchGuard => 38250,
    EmitterName::Watchman => 38260,
    EmitterName::WAVESTORM => 38270,
    EmitterName::WATCHMANS => 38275,
    EmitterName::WATCHMANT => 38276,
    EmitterName::WEATHERSCOUT2 => 38280,
    EmitterName::WesternElectricMK10 => 38295,
    EmitterName::WestinghouseADR4LRSR => 38320,
    EmitterName::WestinghouseElectricSPG50 => 38340,
    EmitterName::WestinghouseElectricW120 => 38385,
    EmitterName::WestinghouseSPS29C => 38430,
    EmitterName::WestinghouseSPS37 => 38475,
    EmitterName::WetEye => 38520,
    EmitterName::WetEye2 => 38525,
    EmitterName::WetEyeMod => 38565,
    EmitterName::WF44S => 38568,
    EmitterName::WGU41B => 38570,
    EmitterName::WGU44B => 38572,
    EmitterName::Whiff => 38610,
    EmitterName::WhiffBrick => 38655,
    EmitterName::WhiffFire => 38700,
    EmitterName::WHITEHOUSE => 38715,
    EmitterName::WideMat => 38730,
    EmitterName::WineGlassJammer => 38735,
    EmitterName::WildCard => 38745,
    EmitterName::WILDCAT => 38748,
    EmitterName::WitchEight => 38790,
    EmitterName::WitchFive => 38835,
    EmitterName::WLR => 38840,
    EmitterName::WM2XSeries => 38880,
    EmitterName::WM2XSeriesCAS => 38925,
    EmitterName::WR10X => 38930,
    EmitterName::WR2100 => 38935,
    EmitterName::WSR74C => 38950,
    EmitterName::WSR74S => 38955,
    EmitterName::WSR81 => 38957,
    EmitterName::WXR700C => 38960,
    EmitterName::WXR2100 => 38965,
    EmitterName::WXR2100MSTT => 38966,
    EmitterName::WoodGage => 38970,
    EmitterName::XTAR25 => 38990,
    EmitterName::XTAR3D => 38995,
    EmitterName::YAOGAN3 => 39000,
    EmitterName::Yaogan29 => 39014,
    EmitterName::YardRake => 39015,
    EmitterName::YH96 => 39050,
    EmitterName::YewLoop => 39060,
    EmitterName::YITIANADS => 39061,
    EmitterName::YD3 => 39062,
    EmitterName::YJ12MH => 39063,
    EmitterName::YJ62MH => 39065,
    EmitterName::YJ82MH => 39066,
    EmitterName::YJ83MH => 39067,
    EmitterName::YLC2 => 39070,
    EmitterName::YLC2A => 39071,
    EmitterName::YLC4 => 39073,
    EmitterName::YLC6 => 39074,
    EmitterName::YLC6M => 39075,
    EmitterName::YLC8 => 39080,
    EmitterName::YLC8B => 39081,
    EmitterName::YLC18 => 39085,
    EmitterName::YoYo => 39105,
    EmitterName::ZaslonA => 39110,
    EmitterName::ZaslonMultipurpose => 39112,
    EmitterName::ZooPark1 => 39125,
    EmitterName::ZPS6 => 39126,
    EmitterName::ZOOPARK3 => 39127,
    EmitterName::ZD12 => 39131,
    EmitterName::ZW06 => 39150,
    EmitterName::ANALQ1361 => 39200,
    EmitterName::ANALQ1362 => 39201,
    EmitterName::ANALQ1363 => 39202,
    EmitterName::ANALQ1364 => 39203,
    EmitterName::ANALQ1365 => 39204,
    EmitterName::ANALQ1622 => 39210,
    EmitterName::ANALQ1623 => 39211,
    EmitterName::ANALQ1624 => 39212,
    EmitterName::ZhukM => 45300,
    EmitterName::ZHUKMAE => 45303,
    EmitterName::ZHUKME => 45304,
    EmitterName::ZHUKMME => 45305,
    EmitterName::ZhukMSE => 45307,
    other => other as u32,
} }
impl Model for EmitterName {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(17, EMITTERNAME_ALL, EMITTERNAME_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(emittername_value(*self), 2, 17); }
}
const EMITTERSYSTEMFUNCTION_ALL: &[EmitterSystemFunction] = &[EmitterSystemFunction::Other, EmitterSystemFunction::MultiFunction, EmitterSystemFunction::EarlyWarningSurveillance, EmitterSystemFunction::HeightFinder, EmitterSystemFunction::FireControl, EmitterSystemFunction::AcquisitionDetection, EmitterSystemFunction::Tracker, EmitterSystemFunction::GuidanceIllumination, EmitterSystemFunction::FiringPointLaunchPointLocation, EmitterSystemFunction::RangeOnly, EmitterSystemFunction::RadarAltimeter, EmitterSystemFunction::Imaging, EmitterSystemFunction::MotionDetection, EmitterSystemFunction::Navigation, EmitterSystemFunction::WeatherMeteorological, EmitterSystemFunction::Instrumentation, EmitterSystemFunction::IdentificationClassification, EmitterSystemFunction::AAAFireControl, EmitterSystemFunction::AirSearchBomb, EmitterSystemFunction::AirIntercept, EmitterSystemFunction::Altimeter, EmitterSystemFunction::AirMapping, EmitterSystemFunction::AirTrafficControl, EmitterSystemFunction::Beacon, EmitterSystemFunction::BattlefieldSurveillance, EmitterSystemFunction::GroundControlApproach, EmitterSystemFunction::GroundControlIntercept, EmitterSystemFunction::CoastalSurveillance, EmitterSystemFunction::DecoyMimic, EmitterSystemFunction::DataTransmission, EmitterSystemFunction::EarthSurveillance, EmitterSystemFunction::GunLayBeacon, EmitterSystemFunction::GroundMapping, EmitterSystemFunction::HarborSurveillance, EmitterSystemFunction::IFF, EmitterSystemFunction::InstrumentLandingSystem, EmitterSystemFunction::IonosphericSound, EmitterSystemFunction::Interrogator, EmitterSystemFunction::BarrageJamming, EmitterSystemFunction::ClickJamming, EmitterSystemFunction::DeceptiveJamming, EmitterSystemFunction::FrequencySweptJamming, EmitterSystemFunction::Jammer, EmitterSystemFunction::NoiseJamming, EmitterSystemFunction::PulsedJamming, EmitterSystemFunction::RepeaterJamming, EmitterSystemFunction::SpotNoiseJamming, EmitterSystemFunction::MissileAcquisition, EmitterSystemFunction::MissileDownlink, EmitterSystemFunction::Meteorological, EmitterSystemFunction::Space, EmitterSystemFunction::SurfaceSearch, EmitterSystemFunction::ShellTracking, EmitterSystemFunction::Television, EmitterSystemFunction::Unknown, EmitterSystemFunction::VideoRemoting, EmitterSystemFunction::ExperimentalOrTraining, EmitterSystemFunction::MissileGuidance, EmitterSystemFunction::MissileHoming, EmitterSystemFunction::MissileTracking, EmitterSystemFunction::JammingNoise, EmitterSystemFunction::JammingDeception, EmitterSystemFunction::Decoy, EmitterSystemFunction::NavigationDistanceMeasuringEquipment, EmitterSystemFunction::TerrainFollowing, EmitterSystemFunction::WeatherAvoidance, EmitterSystemFunction::ProximityFuse, EmitterSystemFunction::Instrumentation_, EmitterSystemFunction::Radiosonde, EmitterSystemFunction::Sonobuoy, EmitterSystemFunction::BathythermalSensor, EmitterSystemFunction::TowedCounterMeasure, EmitterSystemFunction::DippingSonar, EmitterSystemFunction::TowedAcousticSensor, EmitterSystemFunction::WeaponNonlethal, EmitterSystemFunction::WeaponLethal, EmitterSystemFunction::TestEquipment, EmitterSystemFunction::AcquisitionTrack, EmitterSystemFunction::TrackGuidance, EmitterSystemFunction::GuidanceIlluminationTrackAcquisition, EmitterSystemFunction::SearchAcquisition, EmitterSystemFunction::Dropsonde];
const EMITTERSYSTEMFUNCTION_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 56, 57, 58, 59, 60, 61, 62, 64, 65, 66, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 96, 97, 98, 99, 100, 101, 102, 103];
pub fn emittersystemfunction_value(v: EmitterSystemFunction) -> u32 { match v {
    EmitterSystemFunction::Other => 0,
    EmitterSystemFunction::MultiFunction => 1,
    EmitterSystemFunction::EarlyWarningSurveillance => 2,
    EmitterSystemFunction::HeightFinder => 3,
    EmitterSystemFunction::FireControl => 4,
    EmitterSystemFunction::AcquisitionDetection => 5,
    EmitterSystemFunction::Tracker => 6,
    EmitterSystemFunction::GuidanceIllumination => 7,
    EmitterSystemFunction::FiringPointLaunchPointLocation => 8,
    EmitterSystemFunction::RangeOnly => 9,
    EmitterSystemFunction::RadarAltimeter => 10,
    EmitterSystemFunction::Imaging => 11,
    EmitterSystemFunction::MotionDetection => 12,
    EmitterSystemFunction::Navigation => 13,
    EmitterSystemFunction::WeatherMeteorological => 14,
    EmitterSystemFunction::Instrumentation => 15,
    EmitterSystemFunction::IdentificationClassification => 16,
    EmitterSystemFunction::AAAFireControl => 17,
    EmitterSystemFunction::AirSearchBomb => 18,
    EmitterSystemFunction::AirIntercept => 19,
    EmitterSystemFunction::Altimeter => 20,
    EmitterSystemFunction::AirMapping => 21,
    EmitterSystemFunction::AirTrafficControl => 22,
    EmitterSystemFunction::Beacon => 23,
    EmitterSystemFunction::BattlefieldSurveillance => 24,
    EmitterSystemFunction::GroundControlApproach => 25,
    EmitterSystemFunction::GroundControlIntercept => 26,
    EmitterSystemFunction::CoastalSurveillance => 27,
    EmitterSystemFunction::DecoyMimic => 28,
    EmitterSystemFunction::DataTransmission => 29,
    EmitterSystemFunction::EarthSurveillance => 30,
    EmitterSystemFunction::GunLayBeacon => 31,
    EmitterSystemFunction::GroundMapping => 32,
    EmitterSystemFunction::HarborSurveillance => 33,
    EmitterSystemFunction::IFF => 34,
    EmitterSystemFunction::InstrumentLandingSystem => 35,
    EmitterSystemFunction::IonosphericSound => 36,
    EmitterSystemFunction::Interrogator => 37,
    EmitterSystemFunction::BarrageJamming => 38,
    EmitterSystemFunction::ClickJamming => 39,
    EmitterSystemFunction::DeceptiveJamming => 40,
    EmitterSystemFunction::FrequencySweptJamming => 41,
    EmitterSystemFunction::Jammer => 42,
    EmitterSystemFunction::NoiseJamming => 43,
    EmitterSystemFunction::PulsedJamming => 44,
    EmitterSystemFunction::RepeaterJamming => 45,
    EmitterSystemFunction::SpotNoiseJamming => 46,
    EmitterSystemFunction::MissileAcquisition => 47,
    EmitterSystemFunction::MissileDownlink => 48,
    EmitterSystemFunction::Meteorological => 49,
    EmitterSystemFunction::Space => 50,
    EmitterSystemFunction::SurfaceSearch => 51,
    EmitterSystemFunction::ShellTracking => 52,
    EmitterSystemFunction::Television => 56,
    EmitterSystemFunction::Unknown => 57,
    EmitterSystemFunction::VideoRemoting => 58,
    EmitterSystemFunction::ExperimentalOrTraining => 59,
    EmitterSystemFunction::MissileGuidance => 60,
    EmitterSystemFunction::MissileHoming => 61,
    EmitterSystemFunction::MissileTracking => 62,
    EmitterSystemFunction::JammingNoise => 64,
    EmitterSystemFunction::JammingDeception => 65,
    EmitterSystemFunction::Decoy => 66,
    EmitterSystemFunction::NavigationDistanceMeasuringEquipment => 71,
    EmitterSystemFunction::TerrainFollowing => 72,
    EmitterSystemFunction::WeatherAvoidance => 73,
    EmitterSystemFunction::ProximityFuse => 74,
    EmitterSystemFunction::Instrumentation_ => 75,
    EmitterSystemFunction::Radiosonde => 76,
    EmitterSystemFunction::Sonobuoy => 77,
    EmitterSystemFunction::BathythermalSensor => 78,
    EmitterSystemFunction::TowedCounterMeasure => 79,
    EmitterSystemFunction::DippingSonar => 80,
    EmitterSystemFunction::TowedAcousticSensor => 81,
    EmitterSystemFunction::WeaponNonlethal => 96,
    EmitterSystemFunction::WeaponLethal => 97,
    EmitterSystemFunction::TestEquipment => 98,
    EmitterSystemFunction::AcquisitionTrack => 99,
    EmitterSystemFunction::TrackGuidance => 100,
    EmitterSystemFunction::GuidanceIlluminationTrackAcquisition => 101,
    EmitterSystemFunction::SearchAcquisition => 102,
    EmitterSystemFunction::Dropsonde => 103,
    other => other as u32,
} }
impl Model for EmitterSystemFunction {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(18, EMITTERSYSTEMFUNCTION_ALL, EMITTERSYSTEMFUNCTION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(emittersystemfunction_value(*self), 1, 18); }
}
const ENTITYCAPABILITIES_ALL: &[EntityCapabilities] = &[EntityCapabilities::LandPlatformEntityCapabilities, EntityCapabilities::AirPlatformEntityCapabilities, EntityCapabilities::SurfacePlatformEntityCapabilities, EntityCapabilities::SubsurfacePlatformEntityCapabilities, EntityCapabilities::SpacePlatformEntityCapabilities, EntityCapabilities::MunitionEntityCapabilities, EntityCapabilities::LifeFormsEntityCapabilities, EntityCapabilities::EnvironmentalEntityCapabilities, EntityCapabilities::CulturalFeatureEntityCapabilities, EntityCapabilities::SupplyEntityCapabilities, EntityCapabilities::RadioEntityCapabilities, EntityCapabilities::ExpendableEntityCapabilities, EntityCapabilities::SensorEmitterEntityCapabilities];
const ENTITYCAPABILITIES_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
pub fn entitycapabilities_value(v: EntityCapabilities) -> u32 { match v {
    EntityCapabilities::LandPlatformEntityCapabilities => 0,
    EntityCapabilities::AirPlatformEntityCapabilities => 1,
    EntityCapabilities::SurfacePlatformEntityCapabilities => 2,
    EntityCapabilities::SubsurfacePlatformEntityCapabilities => 3,
    EntityCapabilities::SpacePlatformEntityCapabilities => 4,
    EntityCapabilities::MunitionEntityCapabilities => 5,
    EntityCapabilities::LifeFormsEntityCapabilities => 6,
    EntityCapabilities::EnvironmentalEntityCapabilities => 7,
    EntityCapabilities::CulturalFeatureEntityCapabilities => 8,
    EntityCapabilities::SupplyEntityCapabilities => 9,
    EntityCapabilities::RadioEntityCapabilities => 10,
    EntityCapabilities::ExpendableEntityCapabilities => 11,
    EntityCapabilities::SensorEmitterEntityCapabilities => 12,
    other => other as u32,
} }
impl Model for EntityCapabilities {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(19, ENTITYCAPABILITIES_ALL, ENTITYCAPABILITIES_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(entitycapabilities_value(*self), 4, 19); }
}
const ENTITYKIND_ALL: &[EntityKind] = &[EntityKind::Other, EntityKind::Platform, EntityKind::Munition, EntityKind::LifeForm, EntityKind::Environmental, EntityKind::CulturalFeature, EntityKind::Supply, EntityKind::Radio, EntityKind::Expendable, EntityKind::SensorEmitter];
const ENTITYKIND_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn entitykind_value(v: EntityKind) -> u32 { match v {
    EntityKind::Other => 0,
    EntityKind::Platform => 1,
    EntityKind::Munition => 2,
    EntityKind::LifeForm => 3,
    EntityKind::Environmental => 4,
    EntityKind::CulturalFeature => 5,
    EntityKind::Supply => 6,
    EntityKind::Radio => 7,
    EntityKind::Expendable => 8,
    EntityKind::SensorEmitter => 9,
    other => other as u32,
} }
impl Model for EntityKind {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(20, ENTITYKIND_ALL, ENTITYKIND_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(entitykind_value(*self), 1, 20); }
}
const ENTITYMARKINGCHARACTERSET_ALL: &[EntityMarkingCharacterSet] = &[EntityMarkingCharacterSet::Unused, EntityMarkingCharacterSet::ASCII, EntityMarkingCharacterSet::USArmyMarking, EntityMarkingCharacterSet::DigitChevron];
const ENTITYMARKINGCHARACTERSET_NUM: &[u32] = &[0, 1, 2, 3];
pub fn entitymarkingcharacterset_value(v: EntityMarkingCharacterSet) -> u32 { match v {
    EntityMarkingCharacterSet::Unused => 0,
    EntityMarkingCharacterSet::ASCII => 1,
    EntityMarkingCharacterSet::USArmyMarking => 2,
    EntityMarkingCharacterSet::DigitChevron => 3,
    other => other as u32,
} }
impl Model for EntityMarkingCharacterSet {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(21, ENTITYMARKINGCHARACTERSET_ALL, ENTITYMARKINGCHARACTERSET_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(entitymarkingcharacterset_value(*self), 1, 21); }
}
const EVENTTYPE_ALL: &[EventType] = &[EventType::Other, EventType::RanOutOfAmmunition, EventType::KilledInAction, EventType::Damage, EventType::MobilityDisabled, EventType::FireDisabled, EventType::RanOutOfFuel, EventType::EntityInitialization, EventType::RequestForIndirectFireOrCASMission, EventType::IndirectFireOrCASFire, EventType::MinefieldEntry, EventType::MinefieldDetonation, EventType::VehicleMasterPowerOn, EventType::VehicleMasterPowerOff, EventType::AggregateStateChangeRequested, EventType::PreventCollisionDetonation, EventType::OwnershipReport, EventType::RadarPerception, EventType::Detect];
const EVENTTYPE_NUM: &[u32] = &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
pub fn eventtype_value(v: EventType) -> u32 { match v {
    EventType::Other => 0,
    EventType::RanOutOfAmmunition => 2,
    EventType::KilledInAction => 3,
    EventType::Damage => 4,
    EventType::MobilityDisabled => 5,
    EventType::FireDisabled => 6,
    EventType::RanOutOfFuel => 7,
    EventType::EntityInitialization => 8,
    EventType::RequestForIndirectFireOrCASMission => 9,
    EventType::IndirectFireOrCASFire => 10,
    EventType::MinefieldEntry => 11,
    EventType::MinefieldDetonation => 12,
    EventType::VehicleMasterPowerOn => 13,
    EventType::VehicleMasterPowerOff => 14,
    EventType::AggregateStateChangeRequested => 15,
    EventType::PreventCollisionDetonation => 16,
    EventType::OwnershipReport => 17,
    EventType::RadarPerception => 18,
    EventType::Detect => 19,
    other => other as u32,
} }
impl Model for EventType {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(22, EVENTTYPE_ALL, EVENTTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(eventtype_value(*self), 4, 22); }
}
const FORCEID_ALL: &[ForceId] = &[ForceId::Other, ForceId::Friendly, ForceId::Opposing, ForceId::Neutral, ForceId::Friendly2, ForceId::Opposing2, ForceId::Neutral2, ForceId::Friendly3, ForceId::Opposing3, ForceId::Neutral3, ForceId::Friendly4, ForceId::Opposing4, ForceId::Neutral4, ForceId::Friendly5, ForceId::Opposing5, ForceId::Neutral5, ForceId::Friendly6, ForceId::Opposing6, ForceId::Neutral6, ForceId::Friendly7, ForceId::Opposing7, ForceId::Neutral7, ForceId::Friendly8, ForceId::Opposing8, ForceId::Neutral8, ForceId::Friendly9, ForceId::Opposing9, ForceId::Neutral9, ForceId::Friendly10, ForceId::Opposing10, ForceId::Neutral10];
const FORCEID_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30];
pub fn forceid_value(v: ForceId) -> u32 { match v {
    ForceId::Other => 0,
    ForceId::Friendly => 1,
    ForceId::Opposing => 2,
    ForceId::Neutral => 3,
    ForceId::Friendly2 => 4,
    ForceId::Opposing2 => 5,
    ForceId::Neutral2 => 6,
    ForceId::Friendly3 => 7,
    ForceId::Opposing3 => 8,
    ForceId::Neutral3 => 9,
    ForceId::Friendly4 => 10,
    ForceId::Opposing4 => 11,
    ForceId::Neutral4 => 12,
    ForceId::Friendly5 => 13,
    ForceId::Opposing5 => 14,
    ForceId::Neutral5 => 15,
    ForceId::Friendly6 => 16,
    ForceId::Opposing6 => 17,
    ForceId::Neutral6 => 18,
    ForceId::Friendly7 => 19,
    ForceId::Opposing7 => 20,
    ForceId::Neutral7 => 21,
    ForceId::Friendly8 => 22,
    ForceId::Opposing8 => 23,
    ForceId::Neutral8 => 24,
    ForceId::Friendly9 => 25,
    ForceId::Opposing9 => 26,
    ForceId::Neutral9 => 27,
    ForceId::Friendly10 => 28,
    ForceId::Opposing10 => 29,
    ForceId::Neutral10 => 30,
    other => other as u32,
} }
impl Model for ForceId {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(23, FORCEID_ALL, FORCEID_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(forceid_value(*self), 1, 23); }
}
const GRIDAXISDESCRIPTORAXISTYPE_ALL: &[GridAxisDescriptorAxisType] = &[GridAxisDescriptorAxisType::RegularAxis, GridAxisDescriptorAxisType::IrregularAxis];
const GRIDAXISDESCRIPTORAXISTYPE_NUM: &[u32] = &[0, 1];
pub fn gridaxisdescriptoraxistype_value(v: GridAxisDescriptorAxisType) -> u32 { match v {
    GridAxisDescriptorAxisType::RegularAxis => 0,
    GridAxisDescriptorAxisType::IrregularAxis => 1,
    other => other as u32,
} }
impl Model for GridAxisDescriptorAxisType {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(24, GRIDAXISDESCRIPTORAXISTYPE_ALL, GRIDAXISDESCRIPTORAXISTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(gridaxisdescriptoraxistype_value(*self), 1, 24); }
}
const GRIDDEDDATACONSTANTGRID_ALL: &[GriddedDataConstantGrid] = &[GriddedDataConstantGrid::Constantgrid, GriddedDataConstantGrid::Updatedgrid];
const GRIDDEDDATACONSTANTGRID_NUM: &[u32] = &[0, 1];
pub fn griddeddataconstantgrid_value(v: GriddedDataConstantGrid) -> u32 { match v {
    GriddedDataConstantGrid::Constantgrid => 0,
    GriddedDataConstantGrid::Updatedgrid => 1,
    other => other as u32,
} }
impl Model for GriddedDataConstantGrid {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(25, GRIDDEDDATACONSTANTGRID_ALL, GRIDDEDDATACONSTANTGRID_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(griddeddataconstantgrid_value(*self), 1, 25); }
}
const GRIDDEDDATACOORDINATESYSTEM_ALL: &[GriddedDataCoordinateSystem] = &[GriddedDataCoordinateSystem::RightHandedCartesian, GriddedDataCoordinateSystem::LeftHandedCartesian, GriddedDataCoordinateSystem::LatitudeLongitudeHeight, GriddedDataCoordinateSystem::LatitudeLongitudeDepth];
const GRIDDEDDATACOORDINATESYSTEM_NUM: &[u32] = &[0, 1, 2, 3];
pub fn griddeddatacoordinatesystem_value(v: GriddedDataCoordinateSystem) -> u32 { match v {
    GriddedDataCoordinateSystem::RightHandedCartesian => 0,
    GriddedDataCoordinateSystem::LeftHandedCartesian => 1,
    GriddedDataCoordinateSystem::LatitudeLongitudeHeight => 2,
    GriddedDataCoordinateSystem::LatitudeLongitudeDepth => 3,
    other => other as u32,
} }
impl Model for GriddedDataCoordinateSystem {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(26, GRIDDEDDATACOORDINATESYSTEM_ALL, GRIDDEDDATACOORDINATESYSTEM_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(griddeddatacoordinatesystem_value(*self), 2, 26); }
}
const GRIDDEDDATADATAREPRESENTATION_ALL: &[GriddedDataDataRepresentation] = &[GriddedDataDataRepresentation::Type0, GriddedDataDataRepresentation::Type1, GriddedDataDataRepresentation::Type2];
const GRIDDEDDATADATAREPRESENTATION_NUM: &[u32] = &[0, 1, 2];
pub fn griddeddatadatarepresentation_value(v: GriddedDataDataRepresentation) -> u32 { match v {
    GriddedDataDataRepresentation::Type0 => 0,
    GriddedDataDataRepresentation::Type1 => 1,
    GriddedDataDataRepresentation::Type2 => 2,
    other => other as u32,
} }
impl Model for GriddedDataDataRepresentation {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(27, GRIDDEDDATADATAREPRESENTATION_ALL, GRIDDEDDATADATAREPRESENTATION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(griddeddatadatarepresentation_value(*self), 2, 27); }
}
const GRIDDEDDATASAMPLETYPE_ALL: &[GriddedDataSampleType] = &[GriddedDataSampleType::NotSpecified];
const GRIDDEDDATASAMPLETYPE_NUM: &[u32] = &[0];
pub fn griddeddatasampletype_value(v: GriddedDataSampleType) -> u32 { match v {
    GriddedDataSampleType::NotSpecified => 0,
    other => other as u32,
} }
impl Model for GriddedDataSampleType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(28, GRIDDEDDATASAMPLETYPE_ALL, GRIDDEDDATASAMPLETYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(griddeddatasampletype_value(*self), 2, 28); }
}
const IOACTIONIOACTIONPHASE_ALL: &[IOActionIOActionPhase] = &[IOActionIOActionPhase::NoStatement, IOActionIOActionPhase::StartAttackProfile, IOActionIOActionPhase::EndAttackProfile, IOActionIOActionPhase::ContinueAttackProfilewithChanges, IOActionIOActionPhase::StartAttackEffects, IOActionIOActionPhase::EndAttackedEffects, IOActionIOActionPhase::ContinueAttackEffectswithChanges];
const IOACTIONIOACTIONPHASE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6];
pub fn ioactionioactionphase_value(v: IOActionIOActionPhase) -> u32 { match v {
    IOActionIOActionPhase::NoStatement => 0,
    IOActionIOActionPhase::StartAttackProfile => 1,
    IOActionIOActionPhase::EndAttackProfile => 2,
    IOActionIOActionPhase::ContinueAttackProfilewithChanges => 3,
    IOActionIOActionPhase::StartAttackEffects => 4,
    IOActionIOActionPhase::EndAttackedEffects => 5,
    IOActionIOActionPhase::ContinueAttackEffectswithChanges => 6,
    other => other as u32,
} }
impl Model for IOActionIOActionPhase {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(29, IOACTIONIOACTIONPHASE_ALL, IOACTIONIOACTIONPHASE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(ioactionioactionphase_value(*self), 2, 29); }
}
const IOACTIONIOACTIONTYPE_ALL: &[IOActionIOActionType] = &[IOActionIOActionType::NoStatement, IOActionIOActionType::IOAttackProfileData, IOActionIOActionType::IOAttackComputedEffects, IOActionIOActionType::IntentBasedEW, IOActionIOActionType::IntentBasedEWComputedEffects];
const IOACTIONIOACTIONTYPE_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn ioactionioactiontype_value(v: IOActionIOActionType) -> u32 { match v {
    IOActionIOActionType::NoStatement => 0,
    IOActionIOActionType::IOAttackProfileData => 1,
    IOActionIOActionType::IOAttackComputedEffects => 2,
    IOActionIOActionType::IntentBasedEW => 3,
    IOActionIOActionType::IntentBasedEWComputedEffects => 4,
    other => other as u32,
} }
impl Model for IOActionIOActionType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(30, IOACTIONIOACTIONTYPE_ALL, IOACTIONIOACTIONTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(ioactionioactiontype_value(*self), 2, 30); }
}
const IOACTIONIOSIMULATIONSOURCE_ALL: &[IOActionIOSimulationSource] = &[IOActionIOSimulationSource::NoStatement];
const IOACTIONIOSIMULATIONSOURCE_NUM: &[u32] = &[0];
pub fn ioactioniosimulationsource_value(v: IOActionIOSimulationSource) -> u32 { match v {
    IOActionIOSimulationSource::NoStatement => 0,
    other => other as u32,
} }
impl Model for IOActionIOSimulationSource {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(31, IOACTIONIOSIMULATIONSOURCE_ALL, IOACTIONIOSIMULATIONSOURCE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(ioactioniosimulationsource_value(*self), 2, 31); }
}
const IOACTIONIOWARFARETYPE_ALL: &[IOActionIOWarfareType] = &[IOActionIOWarfareType::NoStatement, IOActionIOWarfareType::ElectronicWarfare, IOActionIOWarfareType::ComputerNetworkOperations, IOActionIOWarfareType::PsychologicalOperations, IOActionIOWarfareType::MilitaryDeception, IOActionIOWarfareType::OperationsSecurity, IOActionIOWarfareType::PhysicalAttack];
const IOACTIONIOWARFARETYPE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6];
pub fn ioactioniowarfaretype_value(v: IOActionIOWarfareType) -> u32 { match v {
    IOActionIOWarfareType::NoStatement => 0,
    IOActionIOWarfareType::ElectronicWarfare => 1,
    IOActionIOWarfareType::ComputerNetworkOperations => 2,
    IOActionIOWarfareType::PsychologicalOperations => 3,
    IOActionIOWarfareType::MilitaryDeception => 4,
    IOActionIOWarfareType::OperationsSecurity => 5,
    IOActionIOWarfareType::PhysicalAttack => 6,
    other => other as u32,
} }
impl Model for IOActionIOWarfareType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(32, IOACTIONIOWARFARETYPE_ALL, IOACTIONIOWARFARETYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(ioactioniowarfaretype_value(*self), 2, 32); }
}
const IOREPORTIOREPORTTYPE_ALL: &[IOReportIOReportType] = &[IOReportIOReportType::NoStatement, IOReportIOReportType::InitialReport, IOReportIOReportType::UpdateReport, IOReportIOReportType::FinalReport];
const IOREPORTIOREPORTTYPE_NUM: &[u32] = &[0, 1, 2, 3];
pub fn ioreportioreporttype_value(v: IOReportIOReportType) -> u32 { match v {
    IOReportIOReportType::NoStatement => 0,
    IOReportIOReportType::InitialReport => 1,
    IOReportIOReportType::UpdateReport => 2,
    IOReportIOReportType::FinalReport => 3,
    other => other as u32,
} }
impl Model for IOReportIOReportType {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(33, IOREPORTIOREPORTTYPE_ALL, IOREPORTIOREPORTTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(ioreportioreporttype_value(*self), 1, 33); }
}
const INTERCOMCONTROLCOMMAND_ALL: &[IntercomControlCommand] = &[IntercomControlCommand::NoCommand, IntercomControlCommand::Status, IntercomControlCommand::Connect, IntercomControlCommand::Disconnect, IntercomControlCommand::Reset, IntercomControlCommand::On, IntercomControlCommand::Off];
const INTERCOMCONTROLCOMMAND_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6];
pub fn intercomcontrolcommand_value(v: IntercomControlCommand) -> u32 { match v {
    IntercomControlCommand::NoCommand => 0,
    IntercomControlCommand::Status => 1,
    IntercomControlCommand::Connect => 2,
    IntercomControlCommand::Disconnect => 3,
    IntercomControlCommand::Reset => 4,
    IntercomControlCommand::On => 5,
    IntercomControlCommand::Off => 6,
    other => other as u32,
} }
impl Model for IntercomControlCommand {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(34, INTERCOMCONTROLCOMMAND_ALL, INTERCOMCONTROLCOMMAND_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(intercomcontrolcommand_value(*self), 1, 34); }
}
const INTERCOMCONTROLCONTROLTYPE_ALL: &[IntercomControlControlType] = &[IntercomControlControlType::Reserved, IntercomControlControlType::Status, IntercomControlControlType::RequestAcknowledgeRequired, IntercomControlControlType::RequestNoAcknowledge, IntercomControlControlType::AckRequestGranted, IntercomControlControlType::NackRequestDenied];
const INTERCOMCONTROLCONTROLTYPE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5];
pub fn intercomcontrolcontroltype_value(v: IntercomControlControlType) -> u32 { match v {
    IntercomControlControlType::Reserved => 0,
    IntercomControlControlType::Status => 1,
    IntercomControlControlType::RequestAcknowledgeRequired => 2,
    IntercomControlControlType::RequestNoAcknowledge => 3,
    IntercomControlControlType::AckRequestGranted => 4,
    IntercomControlControlType::NackRequestDenied => 5,
    other => other as u32,
} }
impl Model for IntercomControlControlType {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(35, INTERCOMCONTROLCONTROLTYPE_ALL, INTERCOMCONTROLCONTROLTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(intercomcontrolcontroltype_value(*self), 1, 35); }
}
const INTERCOMCONTROLTRANSMITLINESTATE_ALL: &[IntercomControlTransmitLineState] = &[IntercomControlTransmitLineState::TransmitLineStatenotapplicable, IntercomControlTransmitLineState::NotTransmitting, IntercomControlTransmitLineState::Transmitting];
const INTERCOMCONTROLTRANSMITLINESTATE_NUM: &[u32] = &[0, 1, 2];
pub fn intercomcontroltransmitlinestate_value(v: IntercomControlTransmitLineState) -> u32 { match v {
    IntercomControlTransmitLineState::TransmitLineStatenotapplicable => 0,
    IntercomControlTransmitLineState::NotTransmitting => 1,
    IntercomControlTransmitLineState::Transmitting => 2,
    other => other as u32,
} }
impl Model for IntercomControlTransmitLineState {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(36, INTERCOMCONTROLTRANSMITLINESTATE_ALL, INTERCOMCONTROLTRANSMITLINESTATE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(intercomcontroltransmitlinestate_value(*self), 1, 36); }
}
const ISGROUPOFGROUPEDENTITYCATEGORY_ALL: &[IsGroupOfGroupedEntityCategory] = &[IsGroupOfGroupedEntityCategory::Undefined, IsGroupOfGroupedEntityCategory::BasicGroundCombatVehicle, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatVehicle, IsGroupOfGroupedEntityCategory::BasicGroundCombatSoldier, IsGroupOfGroupedEntityCategory::EnhancedGroundCombatSoldier, IsGroupOfGroupedEntityCategory::BasicRotorWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedRotorWingAircraft, IsGroupOfGroupedEntityCategory::BasicFixedWingAircraft, IsGroupOfGroupedEntityCategory::EnhancedFixedWingAircraft, IsGroupOfGroupedEntityCategory::GroundLogisticsVehicle];
const ISGROUPOFGROUPEDENTITYCATEGORY_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn isgroupofgroupedentitycategory_value(v: IsGroupOfGroupedEntityCategory) -> u32 { match v {
    IsGroupOfGroupedEntityCategory::Undefined => 0,
    IsGroupOfGroupedEntityCategory::BasicGroundCombatVehicle => 1,
    IsGroupOfGroupedEntityCategory::EnhancedGroundCombatVehicle => 2,
    IsGroupOfGroupedEntityCategory::BasicGroundCombatSoldier => 3,
    IsGroupOfGroupedEntityCategory::EnhancedGroundCombatSoldier => 4,
    IsGroupOfGroupedEntityCategory::BasicRotorWingAircraft => 5,
    IsGroupOfGroupedEntityCategory::EnhancedRotorWingAircraft => 6,
    IsGroupOfGroupedEntityCategory::BasicFixedWingAircraft => 7,
    IsGroupOfGroupedEntityCategory::EnhancedFixedWingAircraft => 8,
    IsGroupOfGroupedEntityCategory::GroundLogisticsVehicle => 9,
    other => other as u32,
} }
impl Model for IsGroupOfGroupedEntityCategory {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(37, ISGROUPOFGROUPEDENTITYCATEGORY_ALL, ISGROUPOFGROUPEDENTITYCATEGORY_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(isgroupofgroupedentitycategory_value(*self), 1, 37); }
}
const MINEFIELDSENSORTYPES_ALL: &[MinefieldSensorTypes] = &[MinefieldSensorTypes::Other, MinefieldSensorTypes::Optical, MinefieldSensorTypes::FLIR, MinefieldSensorTypes::RADAR, MinefieldSensorTypes::Magnetic, MinefieldSensorTypes::Laser, MinefieldSensorTypes::SONAR, MinefieldSensorTypes::Physical, MinefieldSensorTypes::Multispectral];
const MINEFIELDSENSORTYPES_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
pub fn minefieldsensortypes_value(v: MinefieldSensorTypes) -> u32 { match v {
    MinefieldSensorTypes::Other => 0,
    MinefieldSensorTypes::Optical => 1,
    MinefieldSensorTypes::FLIR => 2,
    MinefieldSensorTypes::RADAR => 3,
    MinefieldSensorTypes::Magnetic => 4,
    MinefieldSensorTypes::Laser => 5,
    MinefieldSensorTypes::SONAR => 6,
    MinefieldSensorTypes::Physical => 7,
    MinefieldSensorTypes::Multispectral => 8,
    other => other as u32,
} }
impl Model for MinefieldSensorTypes {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(38, MINEFIELDSENSORTYPES_ALL, MINEFIELDSENSORTYPES_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(minefieldsensortypes_value(*self), 1, 38); }
}
const MINEFIELDSTATEPROTOCOLMODE_ALL: &[MinefieldStateProtocolMode] = &[MinefieldStateProtocolMode::HeartbeatMode, MinefieldStateProtocolMode::QRPMode];
const MINEFIELDSTATEPROTOCOLMODE_NUM: &[u32] = &[0, 1];
pub fn minefieldstateprotocolmode_value(v: MinefieldStateProtocolMode) -> u32 { match v {
    MinefieldStateProtocolMode::HeartbeatMode => 0,
    MinefieldStateProtocolMode::QRPMode => 1,
    other => other as u32,
} }
impl Model for MinefieldStateProtocolMode {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(39, MINEFIELDSTATEPROTOCOLMODE_ALL, MINEFIELDSTATEPROTOCOLMODE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(minefieldstateprotocolmode_value(*self), 2, 39); }
}
const PDUTYPE_ALL: &[PduType] = &[PduType::Other, PduType::EntityState, PduType::Fire, PduType::Detonation, PduType::Collision, PduType::ServiceRequest, PduType::ResupplyOffer, PduType::ResupplyReceived, PduType::ResupplyCancel, PduType::RepairComplete, PduType::RepairResponse, PduType::CreateEntity, PduType::RemoveEntity, PduType::StartResume, PduType::StopFreeze, PduType::Acknowledge, PduType::ActionRequest, PduType::ActionResponse, PduType::DataQuery, PduType::SetData, PduType::Data, PduType::EventReport, PduType::Comment, PduType::ElectromagneticEmission, PduType::Designator, PduType::Transmitter, PduType::Signal, PduType::Receiver, PduType::IFF, PduType::UnderwaterAcoustic, PduType::SupplementalEmission, PduType::IntercomSignal, PduType::IntercomControl, PduType::AggregateState, PduType::IsGroupOf, PduType::TransferOwnership, PduType::IsPartOf, PduType::MinefieldState, PduType::MinefieldQuery, PduType::MinefieldData, PduType::MinefieldResponseNack, PduType::EnvironmentalProcess, PduType::GriddedData, PduType::PointObjectState, PduType::LinearObjectState, PduType::ArealObjectState, PduType::TimeSpacePositionInformation, PduType::Appearance, PduType::ArticulatedParts, PduType::LiveEntityFire, PduType::LiveEntityDetonation, PduType::CreateEntityReliable, PduType::RemoveEntityReliable, PduType::StartResumeReliable, PduType::StopFreezeReliable, PduType::AcknowledgeReliable, PduType::ActionRequestReliable, PduType::ActionResponseReliable, PduType::DataQueryReliable, PduType::SetDataReliable, PduType::DataReliable, PduType::EventReportReliable, PduType::CommentReliable, PduType::RecordReliable, PduType::SetRecordReliable, PduType::RecordQueryReliable, PduType::CollisionElastic, PduType::EntityStateUpdate, PduType::DirectedEnergyFire, PduType::EntityDamageStatus, PduType::InformationOperationsAction, PduType::InformationOperationsReport, PduType::Attribute];
const PDUTYPE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72];
pub fn pdutype_value(v: PduType) -> u32 { match v {
    PduType::Other => 0,
    PduType::EntityState => 1,
    PduType::Fire => 2,
    PduType::Detonation => 3,
    PduType::Collision => 4,
    PduType::ServiceRequest => 5,
    PduType::ResupplyOffer => 6,
    PduType::ResupplyReceived => 7,
    PduType::ResupplyCancel => 8,
    PduType::RepairComplete => 9,
    PduType::RepairResponse => 10,
    PduType::CreateEntity => 11,
    PduType::RemoveEntity => 12,
    PduType::StartResume => 13,
    PduType::StopFreeze => 14,
    PduType::Acknowledge => 15,
    PduType::ActionRequest => 16,
    PduType::ActionResponse => 17,
    PduType::DataQuery => 18,
    PduType::SetData => 19,
    PduType::Data => 20,
    PduType::EventReport => 21,
    PduType::Comment => 22,
    PduType::ElectromagneticEmission => 23,
    PduType::Designator => 24,
    PduType::Transmitter => 25,
    PduType::Signal => 26,
    PduType::Receiver => 27,
    PduType::IFF => 28,
    PduType::UnderwaterAcoustic => 29,
    PduType::SupplementalEmission => 30,
    PduType::IntercomSignal => 31,
    PduType::IntercomControl => 32,
    PduType::AggregateState => 33,
    PduType::IsGroupOf => 34,
    PduType::TransferOwnership => 35,
    PduType::IsPartOf => 36,
    PduType::MinefieldState => 37,
    PduType::MinefieldQuery => 38,
    PduType::MinefieldData => 39,
    PduType::MinefieldResponseNack => 40,
    PduType::EnvironmentalProcess => 41,
    PduType::GriddedData => 42,
    PduType::PointObjectState => 43,
    PduType::LinearObjectState => 44,
    PduType::ArealObjectState => 45,
    PduType::TimeSpacePositionInformation => 46,
    PduType::Appearance => 47,
    PduType::ArticulatedParts => 48,
    PduType::LiveEntityFire => 49,
    PduType::LiveEntityDetonation => 50,
    PduType::CreateEntityReliable => 51,
    PduType::RemoveEntityReliable => 52,
    PduType::StartResumeReliable => 53,
    PduType::StopFreezeReliable => 54,
    PduType::AcknowledgeReliable => 55,
    PduType::ActionRequestReliable => 56,
    PduType::ActionResponseReliable => 57,
    PduType::DataQueryReliable => 58,
    PduType::SetDataReliable => 59,
    PduType::DataReliable => 60,
    PduType::EventReportReliable => 61,
    PduType::CommentReliable => 62,
    PduType::RecordReliable => 63,
    PduType::SetRecordReliable => 64,
    PduType::RecordQueryReliable => 65,
    PduType::CollisionElastic => 66,
    PduType::EntityStateUpdate => 67,
    PduType::DirectedEnergyFire => 68,
    PduType::EntityDamageStatus => 69,
    PduType::InformationOperationsAction => 70,
    PduType::InformationOperationsReport => 71,
    PduType::Attribute => 72,
    other => other as u32,
} }
impl Model for PduType {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(40, PDUTYPE_ALL, PDUTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(pdutype_value(*self), 1, 40); }
}
const PROTOCOLFAMILY_ALL: &[ProtocolFamily] = &[ProtocolFamily::Other, ProtocolFamily::EntityInformation, ProtocolFamily::Warfare, ProtocolFamily::Logistics, ProtocolFamily::RadioCommunications, ProtocolFamily::SimulationManagement, ProtocolFamily::DistributedEmissionRegeneration, ProtocolFamily::EntityManagement, ProtocolFamily::Minefield, ProtocolFamily::SyntheticEnvironment, ProtocolFamily::SimulationManagementWithReliability, ProtocolFamily::LiveEntityInformationInteraction, ProtocolFamily::NonRealTime, ProtocolFamily::InformationOperations];
const PROTOCOLFAMILY_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
pub fn protocolfamily_value(v: ProtocolFamily) -> u32 { match v {
    ProtocolFamily::Other => 0,
    ProtocolFamily::EntityInformation => 1,
    ProtocolFamily::Warfare => 2,
    ProtocolFamily::Logistics => 3,
    ProtocolFamily::RadioCommunications => 4,
    ProtocolFamily::SimulationManagement => 5,
    ProtocolFamily::DistributedEmissionRegeneration => 6,
    ProtocolFamily::EntityManagement => 7,
    ProtocolFamily::Minefield => 8,
    ProtocolFamily::SyntheticEnvironment => 9,
    ProtocolFamily::SimulationManagementWithReliability => 10,
    ProtocolFamily::LiveEntityInformationInteraction => 11,
    ProtocolFamily::NonRealTime => 12,
    ProtocolFamily::InformationOperations => 13,
    other => other as u32,
} }
impl Model for ProtocolFamily {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(41, PROTOCOLFAMILY_ALL, PROTOCOLFAMILY_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(protocolfamily_value(*self), 1, 41); }
}
const PROTOCOLVERSION_ALL: &[ProtocolVersion] = &[ProtocolVersion::Other, ProtocolVersion::DIS_PDUv1, ProtocolVersion::IEEE1278_1993, ProtocolVersion::DIS_PDUv2_Third_Draft, ProtocolVersion::DIS_PDUv2_Fourth_Draft_Revised, ProtocolVersion::IEEE1278_1_1995, ProtocolVersion::IEEE1278_1A_1998, ProtocolVersion::IEEE1278_1_2012];
const PROTOCOLVERSION_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
pub fn protocolversion_value(v: ProtocolVersion) -> u32 { match v {
    ProtocolVersion::Other => 0,
    ProtocolVersion::DIS_PDUv1 => 1,
    ProtocolVersion::IEEE1278_1993 => 2,
    ProtocolVersion::DIS_PDUv2_Third_Draft => 3,
    ProtocolVersion::DIS_PDUv2_Fourth_Draft_Revised => 4,
    ProtocolVersion::IEEE1278_1_1995 => 5,
    ProtocolVersion::IEEE1278_1A_1998 => 6,
    ProtocolVersion::IEEE1278_1_2012 => 7,
    other => other as u32,
} }
impl Model for ProtocolVersion {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(42, PROTOCOLVERSION_ALL, PROTOCOLVERSION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(protocolversion_value(*self), 1, 42); }
}
const REASON_ALL: &[Reason] = &[Reason::Other, Reason::Recess, Reason::Termination, Reason::SystemFailure, Reason::SecurityViolation, Reason::EntityReconstitution, Reason::StopForReset, Reason::StopForRestart, Reason::AbortTrainingReturnToTacticalOperations];
const REASON_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
pub fn reason_value(v: Reason) -> u32 { match v {
    Reason::Other => 0,
    Reason::Recess => 1,
    Reason::Termination => 2,
    Reason::SystemFailure => 3,
    Reason::SecurityViolation => 4,
    Reason::EntityReconstitution => 5,
    Reason::StopForReset => 6,
    Reason::StopForRestart => 7,
    Reason::AbortTrainingReturnToTacticalOperations => 8,
    other => other as u32,
} }
impl Model for Reason {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(43, REASON_ALL, REASON_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(reason_value(*self), 1, 43); }
}
const RECEIVERRECEIVERSTATE_ALL: &[ReceiverReceiverState] = &[ReceiverReceiverState::Off, ReceiverReceiverState::Onbutnotreceiving, ReceiverReceiverState::Onandreceiving];
const RECEIVERRECEIVERSTATE_NUM: &[u32] = &[0, 1, 2];
pub fn receiverreceiverstate_value(v: ReceiverReceiverState) -> u32 { match v {
    ReceiverReceiverState::Off => 0,
    ReceiverReceiverState::Onbutnotreceiving => 1,
    ReceiverReceiverState::Onandreceiving => 2,
    other => other as u32,
} }
impl Model for ReceiverReceiverState {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(44, RECEIVERRECEIVERSTATE_ALL, RECEIVERRECEIVERSTATE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(receiverreceiverstate_value(*self), 2, 44); }
}
const RECORDQUERYREVENTTYPE_ALL: &[RecordQueryREventType] = &[RecordQueryREventType::Periodic, RecordQueryREventType::InternalEntityStateData];
const RECORDQUERYREVENTTYPE_NUM: &[u32] = &[0, 1];
pub fn recordqueryreventtype_value(v: RecordQueryREventType) -> u32 { match v {
    RecordQueryREventType::Periodic => 0,
    RecordQueryREventType::InternalEntityStateData => 1,
    other => other as u32,
} }
impl Model for RecordQueryREventType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(45, RECORDQUERYREVENTTYPE_ALL, RECORDQUERYREVENTTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(recordqueryreventtype_value(*self), 2, 45); }
}
const REPAIRCOMPLETEREPAIR_ALL: &[RepairCompleteRepair] = &[RepairCompleteRepair::NoRepairsPerformed, RepairCompleteRepair::AllRequestedrepairSperformed, RepairCompleteRepair::MotorEngine, RepairCompleteRepair::Starter, RepairCompleteRepair::Alternator, RepairCompleteRepair::Generator, RepairCompleteRepair::Battery, RepairCompleteRepair::EngineCoolantLeak, RepairCompleteRepair::FuelFilter, RepairCompleteRepair::TransmissionOilLeak, RepairCompleteRepair::EngineOilLeak, RepairCompleteRepair::Pumps, RepairCompleteRepair::DriveTrainFilters, RepairCompleteRepair::Transmission, RepairCompleteRepair::Brakes, RepairCompleteRepair::SuspensionSystem, RepairCompleteRepair::OilFilter, RepairCompleteRepair::Hull, RepairCompleteRepair::Airframe, RepairCompleteRepair::TruckBody, RepairCompleteRepair::TankBody, RepairCompleteRepair::TrailerBody, RepairCompleteRepair::Turret, RepairCompleteRepair::Propeller, RepairCompleteRepair::EnvironmentFilters, RepairCompleteRepair::Wheels, RepairCompleteRepair::Tire, RepairCompleteRepair::Track, RepairCompleteRepair::GunElevationDrive, RepairCompleteRepair::GunStabilizationSystem, RepairCompleteRepair::GunnersPrimarySight, RepairCompleteRepair::CommandersExtensionToTheGPS, RepairCompleteRepair::LoadingMechanism, RepairCompleteRepair::GunnersAuxiliarySight, RepairCompleteRepair::GunnersControlPanel, RepairCompleteRepair::GunnersControlAssemblyHandle, RepairCompleteRepair::CommandersControlHandlesAssembly, RepairCompleteRepair::CommandersWeaponStation, RepairCompleteRepair::CommandersIndependentThermalViewer, RepairCompleteRepair::GeneralWeapons, RepairCompleteRepair::FuelTransferPump, RepairCompleteRepair::FuelLines, RepairCompleteRepair::Gauges, RepairCompleteRepair::GeneralFuelSystem, RepairCompleteRepair::ElectronicWarfareSystems, RepairCompleteRepair::DetectionSystems, RepairCompleteRepair::DetectionSystemsRadioFrequency, RepairCompleteRepair::DetectionSystemsMicrowave, RepairCompleteRepair::DetectionSystemsInfrared, RepairCompleteRepair::DetectionSystemsLaser, RepairCompleteRepair::RangeFinders, RepairCompleteRepair::RangeOnlyrAdar, RepairCompleteRepair::LaserRangeFinder, RepairCompleteRepair::ElectronicSystems, RepairCompleteRepair::ElectronicsSystemsRadioFrequency, RepairCompleteRepair::ElectronicsSystemsMicrowave, RepairCompleteRepair::ElectronicsSystemsInfrared, RepairCompleteRepair::ElectronicsSystemsLaser, RepairCompleteRepair::Radios, RepairCompleteRepair::CommunicationSystems, RepairCompleteRepair::Intercoms, RepairCompleteRepair::Encoders, RepairCompleteRepair::EncryptionDevices, RepairCompleteRepair::Decoders, RepairCompleteRepair::DecryptionDevices, RepairCompleteRepair::Computers, RepairCompleteRepair::NavigationAndControlSystems, RepairCompleteRepair::FireControlSystems, RepairCompleteRepair::AirSupply, RepairCompleteRepair::LifeSupportSystemsFilters, RepairCompleteRepair::WaterSupply, RepairCompleteRepair::RefrigerationSystem, RepairCompleteRepair::ChemicalBiologicalAndRadiologicalProtection, RepairCompleteRepair::WaterWashdownSystems, RepairCompleteRepair::DecontaminationSystems, RepairCompleteRepair::Watersupply, RepairCompleteRepair::Coolingsystem, RepairCompleteRepair::Winches, RepairCompleteRepair::Catapults, RepairCompleteRepair::Cranes, RepairCompleteRepair::Launchers, RepairCompleteRepair::Lifeboats, RepairCompleteRepair::Landingcraft, RepairCompleteRepair::Ejectionseats];
const REPAIRCOMPLETEREPAIR_NUM: &[u32] = &[0, 1, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 1000, 1010, 1020, 1030, 1040, 1050, 1500, 1520, 1540, 1550, 1560, 2000, 2010, 2020, 2030, 2040, 2050, 2060, 2070, 2090, 2100, 2110, 2120, 4000, 4010, 4020, 4030, 4500, 4600, 4610, 4620, 4630, 4640, 4700, 4710, 4720, 4800, 4810, 4820, 4830, 4840, 5000, 5010, 5100, 5200, 5250, 5300, 5350, 5500, 6000, 6500, 8000, 8010, 8020, 8030, 8040, 8050, 8060, 9000, 9010, 9020, 9030, 9040, 9050, 10000, 10010, 10020];
pub fn repaircompleterepair_value(v: RepairCompleteRepair) -> u32 { match v {
    RepairCompleteRepair::NoRepairsPerformed => 0,
    RepairCompleteRepair::AllRequestedrepairSperformed => 1,
    RepairCompleteRepair::MotorEngine => 10,
    RepairCompleteRepair::Starter => 20,
    RepairCompleteRepair::Alternator => 30,
    RepairCompleteRepair::Generator => 40,
    RepairCompleteRepair::Battery => 50,
    RepairCompleteRepair::EngineCoolantLeak => 60,
    RepairCompleteRepair::FuelFilter => 70,
    RepairCompleteRepair::TransmissionOilLeak => 80,
    RepairCompleteRepair::EngineOilLeak => 90,
    RepairCompleteRepair::Pumps => 100,
    RepairCompleteRepair::DriveTrainFilters => 110,
    RepairCompleteRepair::Transmission => 120,
    RepairCompleteRepair::Brakes => 130,
    RepairCompleteRepair::SuspensionSystem => 140,
    RepairCompleteRepair::OilFilter => 150,
    RepairCompleteRepair::Hull => 1000,
    RepairCompleteRepair::Airframe => 1010,
    RepairCompleteRepair::TruckBody => 1020,
    RepairCompleteRepair::TankBody => 1030,
    RepairCompleteRepair::TrailerBody => 1040,
    RepairCompleteRepair::Turret => 1050,
    RepairCompleteRepair::Propeller => 1500,
    RepairCompleteRepair::EnvironmentFilters => 1520,
    RepairCompleteRepair::Wheels => 1540,
    RepairCompleteRepair::Tire => 1550,
    RepairCompleteRepair::Track => 1560,
    RepairCompleteRepair::GunElevationDrive => 2000,
    RepairCompleteRepair::GunStabilizationSystem => 2010,
    RepairCompleteRepair::GunnersPrimarySight => 2020,
    RepairCompleteRepair::CommandersExtensionToTheGPS => 2030,
    RepairCompleteRepair::LoadingMechanism => 2040,
    RepairCompleteRepair::GunnersAuxiliarySight => 2050,
    RepairCompleteRepair::GunnersControlPanel => 2060,
    RepairCompleteRepair::GunnersControlAssemblyHandle => 2070,
    RepairCompleteRepair::CommandersControlHandlesAssembly => 2090,
    RepairCompleteRepair::CommandersWeaponStation => 2100,
    RepairCompleteRepair::CommandersIndependentThermalViewer => 2110,
    RepairCompleteRepair::GeneralWeapons => 2120,
    RepairCompleteRepair::FuelTransferPump => 4000,
    RepairCompleteRepair::FuelLines => 4010,
    RepairCompleteRepair::Gauges => 4020,
    RepairCompleteRepair::GeneralFuelSystem => 4030,
    RepairCompleteRepair::ElectronicWarfareSystems => 4500,
    RepairCompleteRepair::DetectionSystems => 4600,
    RepairCompleteRepair::DetectionSystemsRadioFrequency => 4610,
    RepairCompleteRepair::DetectionSystemsMicrowave => 4620,
    RepairCompleteRepair::DetectionSystemsInfrared => 4630,
    RepairCompleteRepair::DetectionSystemsLaser => 4640,
    RepairCompleteRepair::RangeFinders => 4700,
    RepairCompleteRepair::RangeOnlyrAdar => 4710,
    RepairCompleteRepair::LaserRangeFinder => 4720,
    RepairCompleteRepair::ElectronicSystems => 4800,
    RepairCompleteRepair::ElectronicsSystemsRadioFrequency => 4810,
    RepairCompleteRepair::ElectronicsSystemsMicrowave => 4820,
    RepairCompleteRepair::ElectronicsSystemsInfrared => 4830,
    RepairCompleteRepair::ElectronicsSystemsLaser => 4840,
    RepairCompleteRepair::Radios => 5000,
    RepairCompleteRepair::CommunicationSystems => 5010,
    RepairCompleteRepair::Intercoms => 5100,
    RepairCompleteRepair::Encoders => 5200,
    RepairCompleteRepair::EncryptionDevices => 5250,
    RepairCompleteRepair::Decoders => 5300,
    RepairCompleteRepair::DecryptionDevices => 5350,
    RepairCompleteRepair::Computers => 5500,
    RepairCompleteRepair::NavigationAndControlSystems => 6000,
    RepairCompleteRepair::FireControlSystems => 6500,
    RepairCompleteRepair::AirSupply => 8000,
    RepairCompleteRepair::LifeSupportSystemsFilters => 8010,
    RepairCompleteRepair::WaterSupply => 8020,
    RepairCompleteRepair::RefrigerationSystem => 8030,
    RepairCompleteRepair::ChemicalBiologicalAndRadiologicalProtection => 8040,
    RepairCompleteRepair::WaterWashdownSystems => 8050,
    RepairCompleteRepair::DecontaminationSystems => 8060,
    RepairCompleteRepair::Watersupply => 9000,
    RepairCompleteRepair::Coolingsystem => 9010,
    RepairCompleteRepair::Winches => 9020,
    RepairCompleteRepair::Catapults => 9030,
    RepairCompleteRepair::Cranes => 9040,
    RepairCompleteRepair::Launchers => 9050,
    RepairCompleteRepair::Lifeboats => 10000,
    RepairCompleteRepair::Landingcraft => 10010,
    RepairCompleteRepair::Ejectionseats => 10020,
    other => other as u32,
} }
impl Model for RepairCompleteRepair {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(46, REPAIRCOMPLETEREPAIR_ALL, REPAIRCOMPLETEREPAIR_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(repaircompleterepair_value(*self), 2, 46); }
}
const REPAIRGROUPS_ALL: &[RepairGroups] = &[RepairGroups::GeneralRepairCodes, RepairGroups::DriveTrain, RepairGroups::HullAirframeBody, RepairGroups::InterfacesWithEnvironment, RepairGroups::Weapons, RepairGroups::FuelSystems, RepairGroups::Electronics, RepairGroups::LifeSupportSystems, RepairGroups::HydraulicSystemsAndActuators, RepairGroups::AuxiliaryCraft];
const REPAIRGROUPS_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn repairgroups_value(v: RepairGroups) -> u32 { match v {
    RepairGroups::GeneralRepairCodes => 0,
    RepairGroups::DriveTrain => 1,
    RepairGroups::HullAirframeBody => 2,
    RepairGroups::InterfacesWithEnvironment => 3,
    RepairGroups::Weapons => 4,
    RepairGroups::FuelSystems => 5,
    RepairGroups::Electronics => 6,
    RepairGroups::LifeSupportSystems => 7,
    RepairGroups::HydraulicSystemsAndActuators => 8,
    RepairGroups::AuxiliaryCraft => 9,
    other => other as u32,
} }
impl Model for RepairGroups {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(47, REPAIRGROUPS_ALL, REPAIRGROUPS_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(repairgroups_value(*self), 1, 47); }
}
const REPAIRRESPONSEREPAIRRESULT_ALL: &[RepairResponseRepairResult] = &[RepairResponseRepairResult::Other, RepairResponseRepairResult::RepairEnded, RepairResponseRepairResult::InvalidRepair, RepairResponseRepairResult::RepairInterrupted, RepairResponseRepairResult::ServiceCanceledByTheSupplier];
const REPAIRRESPONSEREPAIRRESULT_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn repairresponserepairresult_value(v: RepairResponseRepairResult) -> u32 { match v {
    RepairResponseRepairResult::Other => 0,
    RepairResponseRepairResult::RepairEnded => 1,
    RepairResponseRepairResult::InvalidRepair => 2,
    RepairResponseRepairResult::RepairInterrupted => 3,
    RepairResponseRepairResult::ServiceCanceledByTheSupplier => 4,
    other => other as u32,
} }
impl Model for RepairResponseRepairResult {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(48, REPAIRRESPONSEREPAIRRESULT_ALL, REPAIRRESPONSEREPAIRRESULT_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(repairresponserepairresult_value(*self), 1, 48); }
}
const REQUIREDRELIABILITYSERVICE_ALL: &[RequiredReliabilityService] = &[RequiredReliabilityService::Acknowledged, RequiredReliabilityService::Unacknowledged];
const REQUIREDRELIABILITYSERVICE_NUM: &[u32] = &[0, 1];
pub fn requiredreliabilityservice_value(v: RequiredReliabilityService) -> u32 { match v {
    RequiredReliabilityService::Acknowledged => 0,
    RequiredReliabilityService::Unacknowledged => 1,
    other => other as u32,
} }
impl Model for RequiredReliabilityService {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(49, REQUIREDRELIABILITYSERVICE_ALL, REQUIREDRELIABILITYSERVICE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(requiredreliabilityservice_value(*self), 1, 49); }
}
const SERVICEREQUESTSERVICETYPEREQUESTED_ALL: &[ServiceRequestServiceTypeRequested] = &[ServiceRequestServiceTypeRequested::Other, ServiceRequestServiceTypeRequested::Resupply, ServiceRequestServiceTypeRequested::Repair, ServiceRequestServiceTypeRequested::AerialRefuelingHighFidelity, ServiceRequestServiceTypeRequested::AerialRefuelingLowFidelity];
const SERVICEREQUESTSERVICETYPEREQUESTED_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn servicerequestservicetyperequested_value(v: ServiceRequestServiceTypeRequested) -> u32 { match v {
    ServiceRequestServiceTypeRequested::Other => 0,
    ServiceRequestServiceTypeRequested::Resupply => 1,
    ServiceRequestServiceTypeRequested::Repair => 2,
    ServiceRequestServiceTypeRequested::AerialRefuelingHighFidelity => 3,
    ServiceRequestServiceTypeRequested::AerialRefuelingLowFidelity => 4,
    other => other as u32,
} }
impl Model for ServiceRequestServiceTypeRequested {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(50, SERVICEREQUESTSERVICETYPEREQUESTED_ALL, SERVICEREQUESTSERVICETYPEREQUESTED_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(servicerequestservicetyperequested_value(*self), 1, 50); }
}
const SIGNALTDLTYPE_ALL: &[SignalTDLType] = &[SignalTDLType::Other, SignalTDLType::PADIL, SignalTDLType::NATOLink1, SignalTDLType::ATDL1, SignalTDLType::Link11B, SignalTDLType::SituationalAwarenessDataLink, SignalTDLType::Link16LegacyFormatJTIDSTADILJ, SignalTDLType::Link16LegacyFormatJTIDSFDLTADILJ, SignalTDLType::Link11, SignalTDLType::IJMS, SignalTDLType::Link4A, SignalTDLType::Link4C, SignalTDLType::TIBS, SignalTDLType::ATL, SignalTDLType::ConstantSource, SignalTDLType::AbbreviatedCommandandControl, SignalTDLType::MILSTAR, SignalTDLType::ATHS, SignalTDLType::OTHGOLD, SignalTDLType::TACELINT, SignalTDLType::WeaponsDataLink, SignalTDLType::AbbreviatedCommandandControl_, SignalTDLType::EnhancedPositionLocationReportingSystem, SignalTDLType::PositionLocationReportingSystem, SignalTDLType::SINCGARS, SignalTDLType::HAVEQUICKI, SignalTDLType::HAVEQUICKII, SignalTDLType::SATURN, SignalTDLType::IntraFlightDataLink1, SignalTDLType::IntraFlightDataLink2, SignalTDLType::ImprovedDataModem, SignalTDLType::AirForceApplicationProgramDevelopment, SignalTDLType::CooperativeEngagementCapability, SignalTDLType::ForwardAreaAirDefense, SignalTDLType::GroundBasedDataLink, SignalTDLType::IntraVehicularInfoSystem, SignalTDLType::MarineTacticalSystem, SignalTDLType::TacticalFireDirectionSystem, SignalTDLType::IntegratedBroadcastService, SignalTDLType::AirborneInformationTransfer, SignalTDLType::AdvancedTacticalAirborneReconnaissanceSystemDataLink, SignalTDLType::BattleGroupPassiveHorizonExtensionSystemDataLink, SignalTDLType::CommonHighBandwidthDataLink, SignalTDLType::GuardrailInteroperableDataLink, SignalTDLType::GuardrailCommonSensorSystemOneDataLink, SignalTDLType::GuardrailCommonSensorSystemTwoDataLink, SignalTDLType::GuardrailCSS2MultiRoleDataLink, SignalTDLType::GuardrailCSS2DirectAirtoSatelliteRelayDataLink, SignalTDLType::LineofSight, SignalTDLType::LightweightCDL, SignalTDLType::L52M, SignalTDLType::RivetReachRivetOwlDataLink, SignalTDLType::SeniorSpan, SignalTDLType::SeniorSpur, SignalTDLType::SeniorStretch_, SignalTDLType::SeniorYearInteroperableDataLink, SignalTDLType::SpaceCDL, SignalTDLType::TR1modeMISTAirborneDataLink, SignalTDLType::KubandSATCOMDataLinkImplementation, SignalTDLType::MissionEquipmentControlDatalink, SignalTDLType::RadarDataTransmittingSetDataLink, SignalTDLType::SurveillanceandControlDataLink, SignalTDLType::TacticalUAVVideo, SignalTDLType::UHFSATCOMDataLinkImplementation, SignalTDLType::TacticalCommonDataLink, SignalTDLType::LowLevelAirPictureInterface, SignalTDLType::WeaponsDataLinkAGM130, SignalTDLType::AutomaticIdentificationSystemAIS, SignalTDLType::WeaponsDataLinkAIM120, SignalTDLType::WeaponsDataLinkAIM9, SignalTDLType::WeaponsDataLinkCAMM, SignalTDLType::GC3, SignalTDLType::Link16StandardizedFormat, SignalTDLType::Link16EnhancedDataRate, SignalTDLType::JTIDSMIDSNetDataLoad, SignalTDLType::Link22, SignalTDLType::AFIWCIADSCommunicationsLinks, SignalTDLType::F22IntraFlightDataLink, SignalTDLType::LBandSATCOM, SignalTDLType::TSAFCommunicationsLink, SignalTDLType::EnhancedSINCGARS7_3, SignalTDLType::F35MultifunctionAdvancedDataLink, SignalTDLType::CursoronTarget, SignalTDLType::AllPurposeStructuredEurocontrolSurveillanceInformationExchange, SignalTDLType::VariableMessageFormat, SignalTDLType::Link16SurrogateforNonNATOTDL, SignalTDLType::MQ19CBandLOSUplink, SignalTDLType::MQ19CBandLOSDownlink, SignalTDLType::MQ19KuBandSATCOMUplink, SignalTDLType::MQ19KuBandSATCOMDownlink, SignalTDLType::WeaponsDatalinkSDBII, SignalTDLType::JTACSAUplink, SignalTDLType::CommonInteractiveBroadcast, SignalTDLType::JointRangeExtensionApplicationProtocolA, SignalTDLType::JPALSDataLink, SignalTDLType::OneSAFIADSCommunicationsLink, SignalTDLType::TacticalTargetingNetworkTechnologyApplication];
const SIGNALTDLTYPE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 125, 126, 127];
pub fn signaltdltype_value(v: SignalTDLType) -> u32 { match v {
    SignalTDLType::Other => 0,
    SignalTDLType::PADIL => 1,
    SignalTDLType::NATOLink1 => 2,
    SignalTDLType::ATDL1 => 3,
    SignalTDLType::Link11B => 4,
    SignalTDLType::SituationalAwarenessDataLink => 5,
    SignalTDLType::Link16LegacyFormatJTIDSTADILJ => 6,
    SignalTDLType::Link16LegacyFormatJTIDSFDLTADILJ => 7,
    SignalTDLType::Link11 => 8,
    SignalTDLType::IJMS => 9,
    SignalTDLType::Link4A => 10,
    SignalTDLType::Link4C => 11,
    SignalTDLType::TIBS => 12,
    SignalTDLType::ATL => 13,
    SignalTDLType::ConstantSource => 14,
    SignalTDLType::AbbreviatedCommandandControl => 15,
    SignalTDLType::MILSTAR => 16,
    SignalTDLType::ATHS => 17,
    SignalTDLType::OTHGOLD => 18,
    SignalTDLType::TACELINT => 19,
    SignalTDLType::WeaponsDataLink => 20,
    SignalTDLType::AbbreviatedCommandandControl_ => 21,
    SignalTDLType::EnhancedPositionLocationReportingSystem => 22,
    SignalTDLType::PositionLocationReportingSystem => 23,
    SignalTDLType::SINCGARS => 24,
    SignalTDLType::HAVEQUICKI => 25,
    SignalTDLType::HAVEQUICKII => 26,
    SignalTDLType::SATURN => 27,
    SignalTDLType::IntraFlightDataLink1 => 28,
    SignalTDLType::IntraFlightDataLink2 => 29,
    SignalTDLType::ImprovedDataModem => 30,
    SignalTDLType::AirForceApplicationProgramDevelopment => 31,
    SignalTDLType::CooperativeEngagementCapability => 32,
    SignalTDLType::ForwardAreaAirDefense => 33,
    SignalTDLType::GroundBasedDataLink => 34,
    SignalTDLType::IntraVehicularInfoSystem => 35,
    SignalTDLType::MarineTacticalSystem => 36,
    SignalTDLType::TacticalFireDirectionSystem => 37,
    SignalTDLType::IntegratedBroadcastService => 38,
    SignalTDLType::AirborneInformationTransfer => 39,
    SignalTDLType::AdvancedTacticalAirborneReconnaissanceSystemDataLink => 40,
    SignalTDLType::BattleGroupPassiveHorizonExtensionSystemDataLink => 41,
    SignalTDLType::CommonHighBandwidthDataLink => 42,
    SignalTDLType::GuardrailInteroperableDataLink => 43,
    SignalTDLType::GuardrailCommonSensorSystemOneDataLink => 44,
    SignalTDLType::GuardrailCommonSensorSystemTwoDataLink => 45,
    SignalTDLType::GuardrailCSS2MultiRoleDataLink => 46,
    SignalTDLType::GuardrailCSS2DirectAirtoSatelliteRelayDataLink => 47,
    SignalTDLType::LineofSight => 48,
    SignalTDLType::LightweightCDL => 49,
    SignalTDLType::L52M => 50,
    SignalTDLType::RivetReachRivetOwlDataLink => 51,
    SignalTDLType::SeniorSpan => 52,
    SignalTDLType::SeniorSpur => 53,
    SignalTDLType::SeniorStretch_ => 54,
    SignalTDLType::SeniorYearInteroperableDataLink => 55,
    SignalTDLType::SpaceCDL => 56,
    SignalTDLType::TR1modeMISTAirborneDataLink => 57,
    SignalTDLType::KubandSATCOMDataLinkImplementation => 58,
    SignalTDLType::MissionEquipmentControlDatalink => 59,
    SignalTDLType::RadarDataTransmittingSetDataLink => 60,
    SignalTDLType::SurveillanceandControlDataLink => 61,
    SignalTDLType::TacticalUAVVideo => 62,
    SignalTDLType::UHFSATCOMDataLinkImplementation => 63,
    SignalTDLType::TacticalCommonDataLink => 64,
    SignalTDLType::LowLevelAirPictureInterface => 65,
    SignalTDLType::WeaponsDataLinkAGM130 => 66,
    SignalTDLType::AutomaticIdentificationSystemAIS => 67,
    SignalTDLType::WeaponsDataLinkAIM120 => 68,
    SignalTDLType::WeaponsDataLinkAIM9 => 69,
    SignalTDLType::WeaponsDataLinkCAMM => 70,
    SignalTDLType::GC3 => 99,
    SignalTDLType::Link16StandardizedFormat => 100,
    SignalTDLType::Link16EnhancedDataRate => 101,
    SignalTDLType::JTIDSMIDSNetDataLoad => 102,
    SignalTDLType::Link22 => 103,
    SignalTDLType::AFIWCIADSCommunicationsLinks => 104,
    SignalTDLType::F22IntraFlightDataLink => 105,
    SignalTDLType::LBandSATCOM => 106,
    SignalTDLType::TSAFCommunicationsLink => 107,
    SignalTDLType::EnhancedSINCGARS7_3 => 108,
    SignalTDLType::F35MultifunctionAdvancedDataLink => 109,
    SignalTDLType::CursoronTarget => 110,
    SignalTDLType::AllPurposeStructuredEurocontrolSurveillanceInformationExchange => 111,
    SignalTDLType::VariableMessageFormat => 112,
    SignalTDLType::Link16SurrogateforNonNATOTDL => 113,
    SignalTDLType::MQ19CBandLOSUplink => 114,
    SignalTDLType::MQ19CBandLOSDownlink => 115,
    SignalTDLType::MQ19KuBandSATCOMUplink => 116,
    SignalTDLType::MQ19KuBandSATCOMDownlink => 117,
    SignalTDLType::WeaponsDatalinkSDBII => 118,
    SignalTDLType::JTACSAUplink => 119,
    SignalTDLType::CommonInteractiveBroadcast => 120,
    SignalTDLType::JointRangeExtensionApplicationProtocolA => 121,
    SignalTDLType::JPALSDataLink => 125,
    SignalTDLType::OneSAFIADSCommunicationsLink => 126,
    SignalTDLType::TacticalTargetingNetworkTechnologyApplication => 127,
    other => other as u32,
} }
impl Model for SignalTDLType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(51, SIGNALTDLTYPE_ALL, SIGNALTDLTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(signaltdltype_value(*self), 2, 51); }
}
const TRANSFERCONTROLTRANSFERTYPE_ALL: &[TransferControlTransferType] = &[TransferControlTransferType::Other, TransferControlTransferType::PushTransferEntity, TransferControlTransferType::AutomaticPullTransferEntity, TransferControlTransferType::PushTransferEnvironmentalProcess, TransferControlTransferType::AutomaticPullTransferEnvironmentalProcess, TransferControlTransferType::CancelTransfer, TransferControlTransferType::ManualPullTransferEntity, TransferControlTransferType::ManualPullTransferEnvironmentalProcess, TransferControlTransferType::RemoveEntity];
const TRANSFERCONTROLTRANSFERTYPE_NUM: &[u32] = &[0, 1, 2, 4, 5, 7, 8, 9, 10];
pub fn transfercontroltransfertype_value(v: TransferControlTransferType) -> u32 { match v {
    TransferControlTransferType::Other => 0,
    TransferControlTransferType::PushTransferEntity => 1,
    TransferControlTransferType::AutomaticPullTransferEntity => 2,
    TransferControlTransferType::PushTransferEnvironmentalProcess => 4,
    TransferControlTransferType::AutomaticPullTransferEnvironmentalProcess => 5,
    TransferControlTransferType::CancelTransfer => 7,
    TransferControlTransferType::ManualPullTransferEntity => 8,
    TransferControlTransferType::ManualPullTransferEnvironmentalProcess => 9,
    TransferControlTransferType::RemoveEntity => 10,
    other => other as u32,
} }
impl Model for TransferControlTransferType {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(52, TRANSFERCONTROLTRANSFERTYPE_ALL, TRANSFERCONTROLTRANSFERTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transfercontroltransfertype_value(*self), 1, 52); }
}
const TRANSMITTERANTENNAPATTERNREFERENCESYSTEM_ALL: &[TransmitterAntennaPatternReferenceSystem] = &[TransmitterAntennaPatternReferenceSystem::WorldCoordinates, TransmitterAntennaPatternReferenceSystem::EntityCoordinates];
const TRANSMITTERANTENNAPATTERNREFERENCESYSTEM_NUM: &[u32] = &[1, 2];
pub fn transmitterantennapatternreferencesystem_value(v: TransmitterAntennaPatternReferenceSystem) -> u32 { match v {
    TransmitterAntennaPatternReferenceSystem::WorldCoordinates => 1,
    TransmitterAntennaPatternReferenceSystem::EntityCoordinates => 2,
    other => other as u32,
} }
impl Model for TransmitterAntennaPatternReferenceSystem {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(53, TRANSMITTERANTENNAPATTERNREFERENCESYSTEM_ALL, TRANSMITTERANTENNAPATTERNREFERENCESYSTEM_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transmitterantennapatternreferencesystem_value(*self), 1, 53); }
}
const TRANSMITTERANTENNAPATTERNTYPE_ALL: &[TransmitterAntennaPatternType] = &[TransmitterAntennaPatternType::Isotropic, TransmitterAntennaPatternType::Beam, TransmitterAntennaPatternType::Sphericalharmonic, TransmitterAntennaPatternType::TransmitterRadiationVolume, TransmitterAntennaPatternType::BeamandTransmitterRadiationVolume, TransmitterAntennaPatternType::Omnidirectional];
const TRANSMITTERANTENNAPATTERNTYPE_NUM: &[u32] = &[0, 1, 2, 4, 5, 6];
pub fn transmitterantennapatterntype_value(v: TransmitterAntennaPatternType) -> u32 { match v {
    TransmitterAntennaPatternType::Isotropic => 0,
    TransmitterAntennaPatternType::Beam => 1,
    TransmitterAntennaPatternType::Sphericalharmonic => 2,
    TransmitterAntennaPatternType::TransmitterRadiationVolume => 4,
    TransmitterAntennaPatternType::BeamandTransmitterRadiationVolume => 5,
    TransmitterAntennaPatternType::Omnidirectional => 6,
    other => other as u32,
} }
impl Model for TransmitterAntennaPatternType {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(54, TRANSMITTERANTENNAPATTERNTYPE_ALL, TRANSMITTERANTENNAPATTERNTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transmitterantennapatterntype_value(*self), 2, 54); }
}
const TRANSMITTERCRYPTOSYSTEM_ALL: &[TransmitterCryptoSystem] = &[TransmitterCryptoSystem::NoEncryptionDevice, TransmitterCryptoSystem::KY28, TransmitterCryptoSystem::KY58, TransmitterCryptoSystem::NarrowSpectrumSecureVoice, TransmitterCryptoSystem::WideSpectrumSecureVoice, TransmitterCryptoSystem::SINCGARSICOM, TransmitterCryptoSystem::KY75, TransmitterCryptoSystem::KY100, TransmitterCryptoSystem::KY57, TransmitterCryptoSystem::KYV5, TransmitterCryptoSystem::Link11KG40AP, TransmitterCryptoSystem::Link11BKG40AS, TransmitterCryptoSystem::Link11KG40AR, TransmitterCryptoSystem::KGV135A, TransmitterCryptoSystem::TacticalSecureVoice];
const TRANSMITTERCRYPTOSYSTEM_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
pub fn transmittercryptosystem_value(v: TransmitterCryptoSystem) -> u32 { match v {
    TransmitterCryptoSystem::NoEncryptionDevice => 0,
    TransmitterCryptoSystem::KY28 => 1,
    TransmitterCryptoSystem::KY58 => 2,
    TransmitterCryptoSystem::NarrowSpectrumSecureVoice => 3,
    TransmitterCryptoSystem::WideSpectrumSecureVoice => 4,
    TransmitterCryptoSystem::SINCGARSICOM => 5,
    TransmitterCryptoSystem::KY75 => 6,
    TransmitterCryptoSystem::KY100 => 7,
    TransmitterCryptoSystem::KY57 => 8,
    TransmitterCryptoSystem::KYV5 => 9,
    TransmitterCryptoSystem::Link11KG40AP => 10,
    TransmitterCryptoSystem::Link11BKG40AS => 11,
    TransmitterCryptoSystem::Link11KG40AR => 12,
    TransmitterCryptoSystem::KGV135A => 13,
    TransmitterCryptoSystem::TacticalSecureVoice => 14,
    other => other as u32,
} }
impl Model for TransmitterCryptoSystem {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(55, TRANSMITTERCRYPTOSYSTEM_ALL, TRANSMITTERCRYPTOSYSTEM_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transmittercryptosystem_value(*self), 2, 55); }
}
const TRANSMITTERINPUTSOURCE_ALL: &[TransmitterInputSource] = &[TransmitterInputSource::Other, TransmitterInputSource::Pilot, TransmitterInputSource::Copilot, TransmitterInputSource::FirstOfficer, TransmitterInputSource::Driver, TransmitterInputSource::Loader, TransmitterInputSource::Gunner, TransmitterInputSource::Commander, TransmitterInputSource::DigitalDataDevice, TransmitterInputSource::Intercom, TransmitterInputSource::AudioJammer, TransmitterInputSource::DataJammer, TransmitterInputSource::GPSJammer, TransmitterInputSource::GPSMeaconer, TransmitterInputSource::SATCOMUplinkJammer];
const TRANSMITTERINPUTSOURCE_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
pub fn transmitterinputsource_value(v: TransmitterInputSource) -> u32 { match v {
    TransmitterInputSource::Other => 0,
    TransmitterInputSource::Pilot => 1,
    TransmitterInputSource::Copilot => 2,
    TransmitterInputSource::FirstOfficer => 3,
    TransmitterInputSource::Driver => 4,
    TransmitterInputSource::Loader => 5,
    TransmitterInputSource::Gunner => 6,
    TransmitterInputSource::Commander => 7,
    TransmitterInputSource::DigitalDataDevice => 8,
    TransmitterInputSource::Intercom => 9,
    TransmitterInputSource::AudioJammer => 10,
    TransmitterInputSource::DataJammer => 11,
    TransmitterInputSource::GPSJammer => 12,
    TransmitterInputSource::GPSMeaconer => 13,
    TransmitterInputSource::SATCOMUplinkJammer => 14,
    other => other as u32,
} }
impl Model for TransmitterInputSource {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(56, TRANSMITTERINPUTSOURCE_ALL, TRANSMITTERINPUTSOURCE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transmitterinputsource_value(*self), 1, 56); }
}
const TRANSMITTERTRANSMITSTATE_ALL: &[TransmitterTransmitState] = &[TransmitterTransmitState::Off, TransmitterTransmitState::Onbutnottransmitting, TransmitterTransmitState::Onandtransmitting];
const TRANSMITTERTRANSMITSTATE_NUM: &[u32] = &[0, 1, 2];
pub fn transmittertransmitstate_value(v: TransmitterTransmitState) -> u32 { match v {
    TransmitterTransmitState::Off => 0,
    TransmitterTransmitState::Onbutnottransmitting => 1,
    TransmitterTransmitState::Onandtransmitting => 2,
    other => other as u32,
} }
impl Model for TransmitterTransmitState {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(57, TRANSMITTERTRANSMITSTATE_ALL, TRANSMITTERTRANSMITSTATE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(transmittertransmitstate_value(*self), 1, 57); }
}
const UAACOUSTICEMITTERSYSTEMFUNCTION_ALL: &[UAAcousticEmitterSystemFunction] = &[UAAcousticEmitterSystemFunction::Other, UAAcousticEmitterSystemFunction::Platformsearchdetecttrack, UAAcousticEmitterSystemFunction::Navigation, UAAcousticEmitterSystemFunction::Minehunting, UAAcousticEmitterSystemFunction::Weaponsearchdetecttrackdetect];
const UAACOUSTICEMITTERSYSTEMFUNCTION_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn uaacousticemittersystemfunction_value(v: UAAcousticEmitterSystemFunction) -> u32 { match v {
    UAAcousticEmitterSystemFunction::Other => 0,
    UAAcousticEmitterSystemFunction::Platformsearchdetecttrack => 1,
    UAAcousticEmitterSystemFunction::Navigation => 2,
    UAAcousticEmitterSystemFunction::Minehunting => 3,
    UAAcousticEmitterSystemFunction::Weaponsearchdetecttrackdetect => 4,
    other => other as u32,
} }
impl Model for UAAcousticEmitterSystemFunction {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(58, UAACOUSTICEMITTERSYSTEMFUNCTION_ALL, UAACOUSTICEMITTERSYSTEMFUNCTION_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(uaacousticemittersystemfunction_value(*self), 1, 58); }
}
const UAACOUSTICSYSTEMNAME_ALL: &[UAAcousticSystemName] = &[UAAcousticSystemName::Other, UAAcousticSystemName::ANBQQ5, UAAcousticSystemName::ANSSQ62, UAAcousticSystemName::ANSQS23, UAAcousticSystemName::ANSQS26, UAAcousticSystemName::ANSQS53, UAAcousticSystemName::ALFS, UAAcousticSystemName::LFA, UAAcousticSystemName::ANAQS901, UAAcousticSystemName::ANAQS902];
const UAACOUSTICSYSTEMNAME_NUM: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub fn uaacousticsystemname_value(v: UAAcousticSystemName) -> u32 { match v {
    UAAcousticSystemName::Other => 0,
    UAAcousticSystemName::ANBQQ5 => 1,
    UAAcousticSystemName::ANSSQ62 => 2,
    UAAcousticSystemName::ANSQS23 => 3,
    UAAcousticSystemName::ANSQS26 => 4,
    UAAcousticSystemName::ANSQS53 => 5,
    UAAcousticSystemName::ALFS => 6,
    UAAcousticSystemName::LFA => 7,
    UAAcousticSystemName::ANAQS901 => 8,
    UAAcousticSystemName::ANAQS902 => 9,
    other => other as u32,
} }
impl Model for UAAcousticSystemName {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(59, UAACOUSTICSYSTEMNAME_ALL, UAACOUSTICSYSTEMNAME_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(uaacousticsystemname_value(*self), 2, 59); }
}
const UAPASSIVEPARAMETERINDEX_ALL: &[UAPassiveParameterIndex] = &[UAPassiveParameterIndex::Other];
const UAPASSIVEPARAMETERINDEX_NUM: &[u32] = &[0];
pub fn uapassiveparameterindex_value(v: UAPassiveParameterIndex) -> u32 { match v {
    UAPassiveParameterIndex::Other => 0,
    other => other as u32,
} }
impl Model for UAPassiveParameterIndex {
    fn gen_(g: &mut Gen) -> Self { g.charge(2); *g.pick_enum(60, UAPASSIVEPARAMETERINDEX_ALL, UAPASSIVEPARAMETERINDEX_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(uapassiveparameterindex_value(*self), 2, 60); }
}
const UASTATECHANGEUPDATEINDICATOR_ALL: &[UAStateChangeUpdateIndicator] = &[UAStateChangeUpdateIndicator::StateUpdate, UAStateChangeUpdateIndicator::ChangedDataUpdate];
const UASTATECHANGEUPDATEINDICATOR_NUM: &[u32] = &[0, 1];
pub fn uastatechangeupdateindicator_value(v: UAStateChangeUpdateIndicator) -> u32 { match v {
    UAStateChangeUpdateIndicator::StateUpdate => 0,
    UAStateChangeUpdateIndicator::ChangedDataUpdate => 1,
    other => other as u32,
} }
impl Model for UAStateChangeUpdateIndicator {
    fn gen_(g: &mut Gen) -> Self { g.charge(1); *g.pick_enum(61, UASTATECHANGEUPDATEINDICATOR_ALL, UASTATECHANGEUPDATEINDICATOR_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(uastatechangeupdateindicator_value(*self), 1, 61); }
}
const VARIABLEPARAMETERRECORDTYPE_ALL: &[VariableParameterRecordType] = &[VariableParameterRecordType::ArticulatedPart, VariableParameterRecordType::AttachedPart, VariableParameterRecordType::Separation, VariableParameterRecordType::EntityType, VariableParameterRecordType::EntityAssociation];
const VARIABLEPARAMETERRECORDTYPE_NUM: &[u32] = &[0, 1, 2, 3, 4];
pub fn variableparameterrecordtype_value(v: VariableParameterRecordType) -> u32 { match v {
    VariableParameterRecordType::ArticulatedPart => 0,
    VariableParameterRecordType::AttachedPart => 1,
    VariableParameterRecordType::Separation => 2,
    VariableParameterRecordType::EntityType => 3,
    VariableParameterRecordType::EntityAssociation => 4,
    other => other as u32,
} }
impl Model for VariableParameterRecordType {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(62, VARIABLEPARAMETERRECORDTYPE_ALL, VARIABLEPARAMETERRECORDTYPE_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(variableparameterrecordtype_value(*self), 4, 62); }
}
const VARIABLERECORDTYPES_ALL: &[VariableRecordTypes] = &[VariableRecordTypes::EntityIDList, VariableRecordTypes::DDCPJoinTransactionJoinRequestMessage, VariableRecordTypes::DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage, VariableRecordTypes::DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage, VariableRecordTypes::DDCPCueTransactionCueRequestMessage, VariableRecordTypes::DDCPPlayTransactionPlayRequestMessage, VariableRecordTypes::DDCPStopTransactionStopRequestMessage, VariableRecordTypes::DDCPPauseTransactionPauseRequestMessage, VariableRecordTypes::DDCPEndTransactionEndRequestMessage, VariableRecordTypes::DDCPJoinResponseMessage, VariableRecordTypes::DDCPRequestReceiptMessage, VariableRecordTypes::DDCPPlaybackWindowConfirmedMessage, VariableRecordTypes::DDCPMissionRecordingLoadedMessage, VariableRecordTypes::DDCPCueConfirmedMessage, VariableRecordTypes::DDCPTimetoCompleteMessage, VariableRecordTypes::DDCPPlayCommencedMessage, VariableRecordTypes::DDCPStopConfirmedMessage, VariableRecordTypes::DDCPPauseConfirmedMessage, VariableRecordTypes::DDCPEndResponseMessage, VariableRecordTypes::DDCPMasterAnnounceMessage, VariableRecordTypes::DDCPDeviceAnnounceMessage, VariableRecordTypes::DDCPDeviceExitMessage, VariableRecordTypes::DDCPDeviceHeartbeatMessage, VariableRecordTypes::DDCPMasterTimeSyncMessage, VariableRecordTypes::DDCPErrorMessage, VariableRecordTypes::DDCPMasterStopSyncMessage, VariableRecordTypes::DDCPMasterTransitionMessage, VariableRecordTypes::MissionTime, VariableRecordTypes::HighFidelityHAVEQUICKSATURNRadio, VariableRecordTypes::BlankingSectorattributerecord, VariableRecordTypes::AngleDeceptionattributerecord, VariableRecordTypes::FalseTargetsattributerecord, VariableRecordTypes::DEPrecisionAimpointrecord, VariableRecordTypes::DEAreaAimpointrecord, VariableRecordTypes::DirectedEnergyDamageDescriptionrecord, VariableRecordTypes::CryptoControl, VariableRecordTypes::Mode5STransponderLocation, VariableRecordTypes::Mode5STransponderLocationError, VariableRecordTypes::SquitterAirbornePositionReport, VariableRecordTypes::SquitterAirborneVelocityReport, VariableRecordTypes::SquitterSurfacePositionReport, VariableRecordTypes::SquitterIdentificationReport, VariableRecordTypes::GICB, VariableRecordTypes::SquitterEventDrivenReport, VariableRecordTypes::AntennaLocation, VariableRecordTypes::BasicInteractive, VariableRecordTypes::InteractiveMode4Reply, VariableRecordTypes::InteractiveMode5Reply, VariableRecordTypes::InteractiveBasicMode5, VariableRecordTypes::InteractiveBasicModeS, VariableRecordTypes::IOEffect, VariableRecordTypes::IOCommunicationsNode, VariableRecordTypes::Identification1, VariableRecordTypes::TrainerInitialConditionsFilename, VariableRecordTypes::Increment3_1MissionDataLoadName, VariableRecordTypes::Increment2MissionDataLoadName, VariableRecordTypes::SetMarkpointCommand, VariableRecordTypes::MarkpointID, VariableRecordTypes::ReactionLevel, VariableRecordTypes::WeaponReload, VariableRecordTypes::CESEntitySetClearStatus, VariableRecordTypes::ActivateEntity, VariableRecordTypes::DisengageReengage1, VariableRecordTypes::FuelFreeze, VariableRecordTypes::FireLaunchDispense, VariableRecordTypes::TargetAssignment, VariableRecordTypes::CICEnable, VariableRecordTypes::ShootInhibit, VariableRecordTypes::Posture, VariableRecordTypes::JammerState, VariableRecordTypes::JammerType, VariableRecordTypes::DynamicTargeting, VariableRecordTypes::ManualJammingOnOverride, VariableRecordTypes::SOJAxis, VariableRecordTypes::EmitterOverride1, VariableRecordTypes::Shields1, VariableRecordTypes::CrashOverride, VariableRecordTypes::StopBuzzer, VariableRecordTypes::TargetLasingOnOff, VariableRecordTypes::TargetLasingLaserCode, VariableRecordTypes::PowerPlant, VariableRecordTypes::TacticalLightingOnOffControlLightControl, VariableRecordTypes::TacticalLightingBlinkerControlBlinkerValue, VariableRecordTypes::TacticalLightingOnOffControlLightControlType, VariableRecordTypes::ParkVehicle, VariableRecordTypes::SignalingOnOff, VariableRecordTypes::SignalingDevice, VariableRecordTypes::OwnshipID, VariableRecordTypes::StateChange, VariableRecordTypes::EntityType1, VariableRecordTypes::Concatenated, VariableRecordTypes::Kind, VariableRecordTypes::Domain, VariableRecordTypes::Country, VariableRecordTypes::Category, VariableRecordTypes::Subcategory, VariableRecordTypes::Specific, VariableRecordTypes::Extra, VariableRecordTypes::ForceID1, VariableRecordTypes::ForceID2, VariableRecordTypes::Description, VariableRecordTypes::TankerBoomControl, VariableRecordTypes::AirportLights, VariableRecordTypes::WeatherPost, VariableRecordTypes::LocalizerandGlideSlope, VariableRecordTypes::TACANNavAids, VariableRecordTypes::AlternativeEntityType1, VariableRecordTypes::Kind2, VariableRecordTypes::Domain2, VariableRecordTypes::Country2, VariableRecordTypes::Category2, VariableRecordTypes::Subcategory2, VariableRecordTypes::Specific2, VariableRecordTypes::Extra2, VariableRecordTypes::Description2, VariableRecordTypes::EntityMarking, VariableRecordTypes::EntityMarkingCharacters, VariableRecordTypes::CrewID, VariableRecordTypes::TaskOrganization, VariableRecordTypes::RegimentName, VariableRecordTypes::BattalionName, VariableRecordTypes::CompanyName, VariableRecordTypes::PlatoonName, VariableRecordTypes::SquadName, VariableRecordTypes::TeamName, VariableRecordTypes::BumperNumber, VariableRecordTypes::VehicleNumber, VariableRecordTypes::UnitNumber, VariableRecordTypes::DISIdentity, VariableRecordTypes::DISSiteID, VariableRecordTypes::DISHostID, VariableRecordTypes::DISEntityID, VariableRecordTypes::MountIntent, VariableRecordTypes::TetherUnthetherCommandID, VariableRecordTypes::TeleportEntityDataRecord, VariableRecordTypes::DISAggregateID, VariableRecordTypes::OwnershipStatus, VariableRecordTypes::Reconstitute, VariableRecordTypes::Loads, VariableRecordTypes::CrewMembers, VariableRecordTypes::CrewMemberID, VariableRecordTypes::Health, VariableRecordTypes::JobAssignment, VariableRecordTypes::Fuel, VariableRecordTypes::Quantity1, VariableRecordTypes::Quantity2, VariableRecordTypes::Ammunition, VariableRecordTypes::_120mmHEATquantity, VariableRecordTypes::_120mmSABOTquantity, VariableRecordTypes::_12_7mmM8quantity, VariableRecordTypes::_12_7mmM20quantity, VariableRecordTypes::_7_62mmM62quantity, VariableRecordTypes::M250UKL8A1quantity, VariableRecordTypes::M250UKL8A3quantity, VariableRecordTypes::_7_62mmM80quantity, VariableRecordTypes::_12_7mmquantity, VariableRecordTypes::_7_62mmquantity, VariableRecordTypes::Minesquantity, VariableRecordTypes::Type, VariableRecordTypes::Kind3, VariableRecordTypes::Domain3, VariableRecordTypes::Country3, VariableRecordTypes::Category3, VariableRecordTypes::Subcategory3, VariableRecordTypes::Extra3, VariableRecordTypes::Description3, VariableRecordTypes::Cargo, VariableRecordTypes::VehicleMass, VariableRecordTypes::SupplyQuantity, VariableRecordTypes::Armament, VariableRecordTypes::Status, VariableRecordTypes::Activateentity, VariableRecordTypes::SubscriptionState, VariableRecordTypes::Roundtriptimedelay, VariableRecordTypes::TADILJmessagecountLabel0, VariableRecordTypes::TADILJmessagecountLabel1, VariableRecordTypes::TADILJmessagecountLabel2, VariableRecordTypes::TADILJmessagecountLabel3, VariableRecordTypes::TADILJmessagecountLabel4, VariableRecordTypes::TADILJmessagecountLabel5, VariableRecordTypes::TADILJmessagecountLabel6, VariableRecordTypes::TADILJmessagecountLabel7, VariableRecordTypes::TADILJmessagecountLabel8, VariableRecordTypes::TADILJmessagecountLabel9, VariableRecordTypes::TADILJmessagecountLabel10, VariableRecordTypes::TADILJmessagecountLabel11, VariableRecordTypes::TADILJmessagecountLabel12, VariableRecordTypes::TADILJmessagecountLabel13, VariableRecordTypes::TADILJmessagecountLabel14, VariableRecordTypes::TADILJmessagecountLabel15, VariableRecordTypes::TADILJmessagecountLabel16, VariableRecordTypes::TADILJmessagecountLabel17, VariableRecordTypes::TADILJmessagecountLabel18, VariableRecordTypes::TADILJmessagecountLabel19, VariableRecordTypes::TADILJmessagecountLabel20, VariableRecordTypes::TADILJmessagecountLabel21, VariableRecordTypes::TADILJmessagecountLabel22, VariableRecordTypes::TADILJmessagecountLabel23, VariableRecordTypes::TADILJmessagecountLabel24, VariableRecordTypes::TADILJmessagecountLabel25, VariableRecordTypes::TADILJmessagecountLabel26, VariableRecordTypes::TADILJmessagecountLabel27, VariableRecordTypes::TADILJmessagecountLabel28, VariableRecordTypes::TADILJmessagecountLabel29, VariableRecordTypes::TADILJmessagecountLabel30, VariableRecordTypes::TADILJmessagecountLabel31, VariableRecordTypes::Position, VariableRecordTypes::Routetype, VariableRecordTypes::MilGrid10, VariableRecordTypes::GeocentricCoordinates, VariableRecordTypes::X, VariableRecordTypes::Y, VariableRecordTypes::Z, VariableRecordTypes::Latitude1, VariableRecordTypes::Longitude1, VariableRecordTypes::LineofSight, VariableRecordTypes::X1, VariableRecordTypes::Y1, VariableRecordTypes::Z1, VariableRecordTypes::Altitude2, VariableRecordTypes::DestinationLatitude, VariableRecordTypes::DestinationLongitude, VariableRecordTypes::DestinationAltitude, VariableRecordTypes::Orientation, VariableRecordTypes::HullHeadingAngle, VariableRecordTypes::HullPitchAngle, VariableRecordTypes::RollAngle, VariableRecordTypes::X2, VariableRecordTypes::Y2, VariableRecordTypes::Z2, VariableRecordTypes::Appearance, VariableRecordTypes::AmbientLighting, VariableRecordTypes::Lights1, VariableRecordTypes::PaintScheme, VariableRecordTypes::Smoke, VariableRecordTypes::TrailingEffects, VariableRecordTypes::Flaming, VariableRecordTypes::Marking, VariableRecordTypes::MinePlowsAttached, VariableRecordTypes::MineRollersAttached, VariableRecordTypes::TankTurretAzimuth, VariableRecordTypes::FailuresandMalfunctions, VariableRecordTypes::Age, VariableRecordTypes::Kilometers, VariableRecordTypes::Damage, VariableRecordTypes::Cause, VariableRecordTypes::MobilityKill1, VariableRecordTypes::FirePowerKill, VariableRecordTypes::PersonnelCasualties, VariableRecordTypes::Velocity, VariableRecordTypes::Xvelocity, VariableRecordTypes::Yvelocity, VariableRecordTypes::Zvelocity, VariableRecordTypes::Speed1, VariableRecordTypes::Acceleration, VariableRecordTypes::Xacceleration, VariableRecordTypes::Yacceleration, VariableRecordTypes::Zacceleration, VariableRecordTypes::EngineStatus, VariableRecordTypes::PrimaryTargetLine, VariableRecordTypes::Exercise, VariableRecordTypes::ExerciseState, VariableRecordTypes::RestartRefresh, VariableRecordTypes::AFATDSFileName, VariableRecordTypes::TerrainDatabase, VariableRecordTypes::Missions, VariableRecordTypes::MissionID, VariableRecordTypes::MissionType, VariableRecordTypes::MissionRequestTimeStamp, VariableRecordTypes::ExerciseDescription, VariableRecordTypes::Name, VariableRecordTypes::Entities, VariableRecordTypes::Version, VariableRecordTypes::GuiseMode, VariableRecordTypes::SimulationApplicationActiveStatus, VariableRecordTypes::SimulationApplicationRoleRecord, VariableRecordTypes::SimulationApplicationState, VariableRecordTypes::VisualOutputMode, VariableRecordTypes::SimulationManagerRole, VariableRecordTypes::SimulationManagerSiteID, VariableRecordTypes::SimulationManagerApplicID, VariableRecordTypes::SimulationManagerEntityID, VariableRecordTypes::SimulationManagerActiveStatus, VariableRecordTypes::AfterActiveReviewRole, VariableRecordTypes::AfterActiveReviewSiteID, VariableRecordTypes::AfterActiveApplicID, VariableRecordTypes::AfterActiveReviewEntityID, VariableRecordTypes::AfterActiveReviewActiveStatus, VariableRecordTypes::ExerciseLoggerRole, VariableRecordTypes::ExerciseLoggerSiteID, VariableRecordTypes::ExerciseLoggerApplicID, VariableRecordTypes::ExerciseEntityID, VariableRecordTypes::ExerciseLoggerActiveStatus, VariableRecordTypes::SyntheticEnvironmentManagerRole, VariableRecordTypes::SyntheticEnvironmentManagerSiteID, VariableRecordTypes::SyntheticEnvironmentManagerApplicID, VariableRecordTypes::SyntheticEnvironmentManagerEntityID, VariableRecordTypes::SyntheticEnvironmentManagerActiveStatus, VariableRecordTypes::SIMNETDISTranslatorRole, VariableRecordTypes::SIMNETDISTranslatorSiteID, VariableRecordTypes::SIMNETDISTranslatorApplicID, VariableRecordTypes::SIMNETDISTranslatorEntityID, VariableRecordTypes::SIMNETDISTranslatorActiveStatus, VariableRecordTypes::ApplicationRate, VariableRecordTypes::ApplicationTime, VariableRecordTypes::ApplicationTimestep, VariableRecordTypes::FeedbackTime, VariableRecordTypes::SimulationRate, VariableRecordTypes::SimulationTime, VariableRecordTypes::SimulationTimestep, VariableRecordTypes::TimeInterval, VariableRecordTypes::TimeLatency, VariableRecordTypes::TimeScheme, VariableRecordTypes::ExerciseElapsedTime, VariableRecordTypes::ElapsedTime, VariableRecordTypes::Environment, VariableRecordTypes::ScenarioDate, VariableRecordTypes::TimeDateValid, VariableRecordTypes::ScenarioTime, VariableRecordTypes::SnowEnableDisable, VariableRecordTypes::WeatherAttributesRequest, VariableRecordTypes::METHeartbeatMessage, VariableRecordTypes::ContrailsEnable, VariableRecordTypes::ContrailAltitudes, VariableRecordTypes::Weather1, VariableRecordTypes::WeatherCondition, VariableRecordTypes::ThermalCondition, VariableRecordTypes::ThermalVisibility1, VariableRecordTypes::ThermalVisibility2, VariableRecordTypes::Time1, VariableRecordTypes::Time2, VariableRecordTypes::TimeofDayDiscrete, VariableRecordTypes::TimeofDayContinuous, VariableRecordTypes::TimeMode, VariableRecordTypes::TimeScene, VariableRecordTypes::CurrentHour, VariableRecordTypes::CurrentMinute, VariableRecordTypes::CurrentSecond, VariableRecordTypes::Azimuth1, VariableRecordTypes::MaximumElevation, VariableRecordTypes::TimeZone, VariableRecordTypes::TimeRate, VariableRecordTypes::TheNumberOfSimulationSecondsSinceTheStartOfTheExercise, VariableRecordTypes::TimeSunriseEnabled, VariableRecordTypes::SunriseHour, VariableRecordTypes::SunriseMinute, VariableRecordTypes::SunriseSecond, VariableRecordTypes::SunriseAzimuth, VariableRecordTypes::TimeSunsetEnabled, VariableRecordTypes::SunsetHour1, VariableRecordTypes::SunsetHour2, VariableRecordTypes::SunsetMinute, VariableRecordTypes::SunsetSecond, VariableRecordTypes::Date1, VariableRecordTypes::DateEuropean, VariableRecordTypes::DateUS, VariableRecordTypes::Month, VariableRecordTypes::Day, VariableRecordTypes::Year, VariableRecordTypes::Clouds, VariableRecordTypes::CloudLayerEnable, VariableRecordTypes::CloudLayerSelection, VariableRecordTypes::Visibility, VariableRecordTypes::BaseAltitude1, VariableRecordTypes::BaseAltitude2, VariableRecordTypes::Ceiling1, VariableRecordTypes::Ceiling2, VariableRecordTypes::Characteristics, VariableRecordTypes::ConcentrationLength, VariableRecordTypes::Transmittance, VariableRecordTypes::Radiance, VariableRecordTypes::Precipitation, VariableRecordTypes::Rain, VariableRecordTypes::Fog, VariableRecordTypes::Visibility1, VariableRecordTypes::Visibility2, VariableRecordTypes::Visibility3, VariableRecordTypes::Density1, VariableRecordTypes::Base, VariableRecordTypes::ViewLayerfromabove_, VariableRecordTypes::TransitionRange, VariableRecordTypes::Bottom1, VariableRecordTypes::Bottom2, VariableRecordTypes::Ceiling3, VariableRecordTypes::Ceiling4, VariableRecordTypes::HeavenlyBodies, VariableRecordTypes::Sun, VariableRecordTypes::SunVisible, VariableRecordTypes::Position1, VariableRecordTypes::SunPositionElevationDegrees, VariableRecordTypes::PositionAzimuth1, VariableRecordTypes::SunPositionAzimuthDegrees, VariableRecordTypes::PositionElevation1, VariableRecordTypes::PositionIntensity1, VariableRecordTypes::Moon, VariableRecordTypes::MoonVisible, VariableRecordTypes::Position2, VariableRecordTypes::PositionAzimuth2, VariableRecordTypes::MoonPositionAzimuthDegrees, VariableRecordTypes::PositionElevation2, VariableRecordTypes::MoonPositionElevationDegrees, VariableRecordTypes::PositionIntensity2, VariableRecordTypes::Horizon, VariableRecordTypes::HorizonAzimuth, VariableRecordTypes::HorizonElevation, VariableRecordTypes::HorizonHeading, VariableRecordTypes::HorizonIntensity, VariableRecordTypes::Humidity, VariableRecordTypes::Visibility4, VariableRecordTypes::Winds, VariableRecordTypes::Speed2, VariableRecordTypes::WindSpeedKnots, VariableRecordTypes::WindDirection1, VariableRecordTypes::WindDirectionDegrees, VariableRecordTypes::Rainsoak, VariableRecordTypes::TideSpeed, VariableRecordTypes::TideSpeedKnots, VariableRecordTypes::TideDirection, VariableRecordTypes::TideDirectionDegrees, VariableRecordTypes::Haze, VariableRecordTypes::Visibility5, VariableRecordTypes::Visibility6, VariableRecordTypes::Density2, VariableRecordTypes::Ceiling5, VariableRecordTypes::Ceiling6, VariableRecordTypes::ContaminantsandObscurants, VariableRecordTypes::ContaminantObscurantType, VariableRecordTypes::Persistence, VariableRecordTypes::ChemicalDosage, VariableRecordTypes::ChemicalAirConcentration, VariableRecordTypes::ChemicalGroundDeposition, VariableRecordTypes::ChemicalMaximumGroundDeposition, VariableRecordTypes::ChemicalDosageThreshold, VariableRecordTypes::BiologicalDosage, VariableRecordTypes::BiologicalAirConcentration, VariableRecordTypes::BiologicalDosageThreshold, VariableRecordTypes::BiologicalBinnedParticleCount, VariableRecordTypes::RadiologicalDosage, VariableRecordTypes::Communications, VariableRecordTypes::FireBottleReload, VariableRecordTypes::ChannelType1, VariableRecordTypes::ChannelType2, VariableRecordTypes::ChannelIdentification, VariableRecordTypes::AlphaIdentification, VariableRecordTypes::RadioIdentification, VariableRecordTypes::LandLineIdentification, VariableRecordTypes::IntercomIdentification, VariableRecordTypes::GroupNetworkChannelNumber, VariableRecordTypes::RadioCommunicationsStatus, VariableRecordTypes::BoomInterphone, VariableRecordTypes::StationaryRadioTransmittersDefaultTime, VariableRecordTypes::MovingRadioTransmittersDefaultTime, VariableRecordTypes::StationaryRadioSignalsDefaultTime, VariableRecordTypes::MovingRadioSignalDefaultTime, VariableRecordTypes::RadioInitializationTransecSecurityKey, VariableRecordTypes::RadioInitializationInternalNoiseLevel, VariableRecordTypes::RadioInitializationSquelchThreshold, VariableRecordTypes::RadioInitializationAntennaLocation, VariableRecordTypes::RadioInitializationAntennaPatternType, VariableRecordTypes::RadioInitializationAntennaPatternLength, VariableRecordTypes::RadioInitializationBeamDefinition, VariableRecordTypes::RadioInitializationTransmitHeartbeatTime, VariableRecordTypes::RadioInitializationTransmitDistanceThresholdVariableRecord, VariableRecordTypes::RadioChannelInitializationLockoutID, VariableRecordTypes::RadioChannelInitializationHopsetID, VariableRecordTypes::RadioChannelInitializationPresetFrequency, VariableRecordTypes::RadioChannelInitializationFrequencySyncTime, VariableRecordTypes::RadioChannelInitializationComsecKey, VariableRecordTypes::RadioChannelInitializationAlpha, VariableRecordTypes::AlgorithmParameters, VariableRecordTypes::DeadReckoningAlgorithm1, VariableRecordTypes::DRALocationThreshold, VariableRecordTypes::DRAOrientationThreshold, VariableRecordTypes::DRATimeThreshold, VariableRecordTypes::SimulationManagementParameters, VariableRecordTypes::CheckpointInterval, VariableRecordTypes::TransmitterTimeThreshold, VariableRecordTypes::ReceiverTimeThreshold, VariableRecordTypes::InteroperabilityMode, VariableRecordTypes::SIMNETDataCollection, VariableRecordTypes::EventID, VariableRecordTypes::SourceSiteID, VariableRecordTypes::SourceHostID, VariableRecordTypes::ArticulatedParts, VariableRecordTypes::PartID, VariableRecordTypes::Index, VariableRecordTypes::Position3, VariableRecordTypes::PositionRate, VariableRecordTypes::Extension, VariableRecordTypes::ExtensionRate, VariableRecordTypes::X3, VariableRecordTypes::Xrate, VariableRecordTypes::Y3, VariableRecordTypes::Yrate, VariableRecordTypes::Z3, VariableRecordTypes::Zrate, VariableRecordTypes::Azimuth2, VariableRecordTypes::AzimuthRate, VariableRecordTypes::Elevation, VariableRecordTypes::ElevationRate, VariableRecordTypes::Rotation2, VariableRecordTypes::RotationRate, VariableRecordTypes::DRAAngularXVelocity, VariableRecordTypes::DRAAngularYVelocity, VariableRecordTypes::DRAAngularZVelocity, VariableRecordTypes::AppearanceTrailingEffects, VariableRecordTypes::AppearanceHatch, VariableRecordTypes::AppearanceCharacterSet, VariableRecordTypes::CapabilityAmmunitionSupplier, VariableRecordTypes::CapabilityMiscellaneousSupplier, VariableRecordTypes::CapabilityRepairProvider, VariableRecordTypes::ArticulationParameter, VariableRecordTypes::ArticulationParameterType1, VariableRecordTypes::ArticulationParameterValue1, VariableRecordTypes::TimeofDayScene, VariableRecordTypes::LatitudeNorth, VariableRecordTypes::LongitudeEast, VariableRecordTypes::TacticalDriverStatus, VariableRecordTypes::SonarSystemStatus, VariableRecordTypes::Accomplishedaccept, VariableRecordTypes::Upperlatitude, VariableRecordTypes::LatitudeSouth, VariableRecordTypes::Westernlongitude, VariableRecordTypes::LongitudeWest, VariableRecordTypes::CDROMNumber, VariableRecordTypes::DTEDdiskID, VariableRecordTypes::Altitude3, VariableRecordTypes::TacticalSystemStatus, VariableRecordTypes::JTIDSStatus, VariableRecordTypes::TADILJStatus, VariableRecordTypes::DSDDStatus, VariableRecordTypes::WeaponSystemStatus, VariableRecordTypes::Subsystemstatus, VariableRecordTypes::Numberofinterceptorsfired, VariableRecordTypes::Numberofinterceptordetonations, VariableRecordTypes::Numberofmessagebuffersdropped, VariableRecordTypes::Satellitesensorbackground1, VariableRecordTypes::Satellitesensorbackground2, VariableRecordTypes::ScriptNumber, VariableRecordTypes::EntityTrackUpdateData, VariableRecordTypes::LocalForceTraining, VariableRecordTypes::EntityTrackIdentityData, VariableRecordTypes::EntityforTrackEvent, VariableRecordTypes::IFFstatus, VariableRecordTypes::EngagementData, VariableRecordTypes::TargetLatitude, VariableRecordTypes::TargetLongitude, VariableRecordTypes::AreaofInterestCenterLatitude, VariableRecordTypes::AreaofInterestCenterLongitude, VariableRecordTypes::AreaofInterestRadius, VariableRecordTypes::AreaofInterestType, VariableRecordTypes::TargetAggregateID, VariableRecordTypes::GICIdentificationNumber, VariableRecordTypes::EstimatedTimeofFlighttoTBMImpact, VariableRecordTypes::EstimatedInterceptTime, VariableRecordTypes::EstimatedTimeofFlighttoNextWaypoint, VariableRecordTypes::EntityTrackEquipmentData, VariableRecordTypes::EmissionEWData, VariableRecordTypes::AppearanceData, VariableRecordTypes::CommandOrderData, VariableRecordTypes::EnvironmentalData, VariableRecordTypes::SignificantEventData, VariableRecordTypes::OperatorActionData, VariableRecordTypes::ADAEngagementMode, VariableRecordTypes::ADAShootingStatus, VariableRecordTypes::ADAMode, VariableRecordTypes::ADARadarStatus, VariableRecordTypes::ShootCommand, VariableRecordTypes::ADAWeaponStatus, VariableRecordTypes::ADAFiringDisciple, VariableRecordTypes::OrderStatus, VariableRecordTypes::TimeSynchronization, VariableRecordTypes::TomahawkData, VariableRecordTypes::NumberofDetonations, VariableRecordTypes::NumberofIntercepts, VariableRecordTypes::OBTControlMT201, VariableRecordTypes::SensorDataMT202, VariableRecordTypes::EnvironmentalDataMT203, VariableRecordTypes::OwnshipDataMT204, VariableRecordTypes::AcousticContactDataMT205, VariableRecordTypes::SonobuoyDataMT207, VariableRecordTypes::SonobuoyContactDataMT210, VariableRecordTypes::HeloControlMT211, VariableRecordTypes::ESMControlData, VariableRecordTypes::ESMContactDataMT214, VariableRecordTypes::ESMEmitterDataMT215, VariableRecordTypes::WeaponDefinitionDataMT217, VariableRecordTypes::WeaponPresetDataMT217, VariableRecordTypes::OBTControlMT301, VariableRecordTypes::SensorDataMT302, VariableRecordTypes::EnvironmentalDataMT303m, VariableRecordTypes::OwnshipDataMT304, VariableRecordTypes::AcousticContactDataMT305, VariableRecordTypes::SonobuoyDataMT307, VariableRecordTypes::SonobuoyContactDataMT310, VariableRecordTypes::HeloScenarioEquipmentStatus, VariableRecordTypes::ESMControlDataMT313, VariableRecordTypes::ESMContactDataMT314, VariableRecordTypes::ESMEmitterDataMT315, VariableRecordTypes::WeaponDefinitionDataMT316, VariableRecordTypes::WeaponPresetDataMT317, VariableRecordTypes::PairingAssociation, VariableRecordTypes::Pointer, VariableRecordTypes::ReportingResponsibility, VariableRecordTypes::TrackNumber, VariableRecordTypes::IDforLink11Reporting, VariableRecordTypes::RemoteTrack, VariableRecordTypes::Link11ErrorRate, VariableRecordTypes::TrackQuality, VariableRecordTypes::Gridlock, VariableRecordTypes::Kill, VariableRecordTypes::TrackIDChangeResolution, VariableRecordTypes::WeaponsStatus, VariableRecordTypes::Link11Operator, VariableRecordTypes::ForceTrainingTransmit, VariableRecordTypes::ForceTrainingReceive, VariableRecordTypes::InterceptorAmplification1, VariableRecordTypes::Consumables1, VariableRecordTypes::Link11LocalTrackQuality, VariableRecordTypes::DLRP, VariableRecordTypes::ForceOrder, VariableRecordTypes::WilcoCantco, VariableRecordTypes::EMCBearing, VariableRecordTypes::ChangeTrackEligibility, VariableRecordTypes::LandMassReferencePoint, VariableRecordTypes::SystemReferencePoint, VariableRecordTypes::PUAmplification, VariableRecordTypes::SetDrift, VariableRecordTypes::BeginInitialization, VariableRecordTypes::StatusandControl, VariableRecordTypes::ScintillationChange, VariableRecordTypes::Link11IDControl, VariableRecordTypes::PUGuardList, VariableRecordTypes::WindsAloft, VariableRecordTypes::SurfaceWinds, VariableRecordTypes::SeaState, VariableRecordTypes::MagneticVariation, VariableRecordTypes::TrackEligibility, VariableRecordTypes::TrainingTrackNotification, VariableRecordTypes::TacanData, VariableRecordTypes::InterceptorAmplification2, VariableRecordTypes::TacanAssignment, VariableRecordTypes::AutopilotStatus, VariableRecordTypes::Consumables2, VariableRecordTypes::Downlink, VariableRecordTypes::TINReport, VariableRecordTypes::SpecialPointControl, VariableRecordTypes::ControlDiscretes, VariableRecordTypes::RequestTargetDiscretes, VariableRecordTypes::TargetDiscretes, VariableRecordTypes::ReplyDiscretes, VariableRecordTypes::CommandManeuvers, VariableRecordTypes::TargetData, VariableRecordTypes::TargetPointer, VariableRecordTypes::InterceptData, VariableRecordTypes::DecrementMissileInventory, VariableRecordTypes::Link4AAlert, VariableRecordTypes::StrikeControl, VariableRecordTypes::SpeedChange, VariableRecordTypes::CourseChange, VariableRecordTypes::AltitudeChange, VariableRecordTypes::ACLSANSPN46Status, VariableRecordTypes::ACLSAircraftReport, VariableRecordTypes::SPS67RadarOperatorFunctions, VariableRecordTypes::SPS55RadarOperatorFunctions, VariableRecordTypes::SPQ9ARadarOperatorFunctions, VariableRecordTypes::SPS49RadarOperatorFunctions, VariableRecordTypes::MK23RadarOperatorFunctions, VariableRecordTypes::SPS48RadarOperatorFunctions, VariableRecordTypes::SPS40RadarOperatorFunctions, VariableRecordTypes::MK95RadarOperatorFunctions, VariableRecordTypes::KillNoKill, VariableRecordTypes::CMTpc, VariableRecordTypes::CMC4AirGlobalData, VariableRecordTypes::CMC4GlobalData, VariableRecordTypes::LINKSIMCOMMENTPDU, VariableRecordTypes::NSSTOwnshipControl, VariableRecordTypes::Other, VariableRecordTypes::MassOfTheVehicle, VariableRecordTypes::ForceID3, VariableRecordTypes::EntityTypeKind, VariableRecordTypes::EntityTypeDomain, VariableRecordTypes::EntityTypeCountry, VariableRecordTypes::EntityTypeCategory, VariableRecordTypes::EntityTypeSubCategory, VariableRecordTypes::EntityTypeSpecific, VariableRecordTypes::EntityTypeExtra, VariableRecordTypes::AlternativeEntityTypeKind, VariableRecordTypes::AlternativeEntityTypeDomain, VariableRecordTypes::AlternativeEntityTypeCountry, VariableRecordTypes::AlternativeEntityTypeCategory, VariableRecordTypes::AlternativeEntityTypeSubCategory, VariableRecordTypes::AlternativeEntityTypeSpecific, VariableRecordTypes::AlternativeEntityTypeExtra, VariableRecordTypes::EntityLocationX, VariableRecordTypes::EntityLocationY, VariableRecordTypes::EntityLocationZ, VariableRecordTypes::EntityLinearVelocityX, VariableRecordTypes::EntityLinearVelocityY, VariableRecordTypes::EntityLinearVelocityZ, VariableRecordTypes::EntityOrientationPsi, VariableRecordTypes::EntityOrientationTheta, VariableRecordTypes::EntityOrientationPhi, VariableRecordTypes::DeadReckoningAlgorithm2, VariableRecordTypes::DeadReckoningLinearAccelerationX, VariableRecordTypes::DeadReckoningLinearAccelerationY, VariableRecordTypes::DeadReckoningLinearAccelerationZ, VariableRecordTypes::DeadReckoningAngularVelocityX, VariableRecordTypes::DeadReckoningAngularVelocityY, VariableRecordTypes::DeadReckoningAngularVelocityZ, VariableRecordTypes::EntityAppearance, VariableRecordTypes::EntityMarkingCharacterSet, VariableRecordTypes::EntityMarking11Bytes, VariableRecordTypes::Capability, VariableRecordTypes::NumberArticulationParameters, VariableRecordTypes::ArticulationParameterID, VariableRecordTypes::ArticulationParameterType2, VariableRecordTypes::ArticulationParameterValue2, VariableRecordTypes::TypeOfStores, VariableRecordTypes::QuantityOfStores, VariableRecordTypes::FuelQuantity, VariableRecordTypes::RadarSystemStatus, VariableRecordTypes::RadioCommunicationSystemStatus, VariableRecordTypes::DefaultTimeForRadioTransmissionForStationaryTransmitters, VariableRecordTypes::DefaultTimeForRadioTransmissionForMovingTransmitters, VariableRecordTypes::BodyPartDamagedRatio, VariableRecordTypes::NameOfTheTerrainDatabaseFile, VariableRecordTypes::NameOfLocalFile, VariableRecordTypes::AimpointBearing, VariableRecordTypes::AimpointElevation, VariableRecordTypes::AimpointRange, VariableRecordTypes::AirSpeed, VariableRecordTypes::Altitude, VariableRecordTypes::ApplicationStatus, VariableRecordTypes::AutoIff, VariableRecordTypes::BeaconDelay, VariableRecordTypes::BingoFuelSetting, VariableRecordTypes::CloudBottom, VariableRecordTypes::CloudTop, VariableRecordTypes::Direction, VariableRecordTypes::EndAction, VariableRecordTypes::Frequency, VariableRecordTypes::Freeze, VariableRecordTypes::Heading, VariableRecordTypes::Identification2, VariableRecordTypes::InitialPointData, VariableRecordTypes::Latitude2, VariableRecordTypes::Lights2, VariableRecordTypes::Linear, VariableRecordTypes::Longitude2, VariableRecordTypes::LowAltitude, VariableRecordTypes::MfdFormats, VariableRecordTypes::Nctr, VariableRecordTypes::NumberProjectiles, VariableRecordTypes::OperationCode, VariableRecordTypes::Pitch, VariableRecordTypes::Profiles, VariableRecordTypes::Quantity3, VariableRecordTypes::RadarModes, VariableRecordTypes::RadarSearchVolume, VariableRecordTypes::Roll, VariableRecordTypes::Rotation, VariableRecordTypes::ScaleFactorX, VariableRecordTypes::ScaleFactorY, VariableRecordTypes::Shields2, VariableRecordTypes::Steerpoint, VariableRecordTypes::Spare1, VariableRecordTypes::Spare2, VariableRecordTypes::Team, VariableRecordTypes::Text, VariableRecordTypes::TimeOfDay, VariableRecordTypes::TrailFlag, VariableRecordTypes::TrailSize, VariableRecordTypes::TypeOfProjectile, VariableRecordTypes::TypeOfTarget, VariableRecordTypes::TypeOfThreat, VariableRecordTypes::UhfFrequency, VariableRecordTypes::UtmAltitude, VariableRecordTypes::UtmLatitude, VariableRecordTypes::UtmLongitude, VariableRecordTypes::VhfFrequency, VariableRecordTypes::VisibilityRange, VariableRecordTypes::VoidAaaHit, VariableRecordTypes::VoidCollision, VariableRecordTypes::VoidEarthHit, VariableRecordTypes::VoidFriendly, VariableRecordTypes::VoidGunHit, VariableRecordTypes::VoidRocketHit, VariableRecordTypes::VoidSamHit, VariableRecordTypes::WeaponData, VariableRecordTypes::WeaponType, VariableRecordTypes::Weather2, VariableRecordTypes::WindDirection2, VariableRecordTypes::WindSpeed, VariableRecordTypes::WingStation, VariableRecordTypes::Yaw, VariableRecordTypes::MemoryOffset, VariableRecordTypes::MemoryData, VariableRecordTypes::VASI, VariableRecordTypes::Beacon, VariableRecordTypes::Strobe, VariableRecordTypes::Culture, VariableRecordTypes::Approach, VariableRecordTypes::RunwayEnd, VariableRecordTypes::Obstruction, VariableRecordTypes::RunwayEdge, VariableRecordTypes::RampTaxiway, VariableRecordTypes::LaserBombCode, VariableRecordTypes::RackType, VariableRecordTypes::HUD, VariableRecordTypes::RoleFileName, VariableRecordTypes::PilotName, VariableRecordTypes::PilotDesignation, VariableRecordTypes::ModelType, VariableRecordTypes::DISType, VariableRecordTypes::Class, VariableRecordTypes::Channel, VariableRecordTypes::EntityType2, VariableRecordTypes::AlternativeEntityType2, VariableRecordTypes::EntityLocation, VariableRecordTypes::EntityLinearVelocity, VariableRecordTypes::EntityOrientation, VariableRecordTypes::DeadReckoning, VariableRecordTypes::FailureSymptom, VariableRecordTypes::MaxFuel, VariableRecordTypes::RefuelingBoomConnect, VariableRecordTypes::AltitudeAGL, VariableRecordTypes::CalibratedAirspeed, VariableRecordTypes::TACANChannel1, VariableRecordTypes::TACANBand1, VariableRecordTypes::TACANMode1, VariableRecordTypes::FuelFlowRate, VariableRecordTypes::FuelTemperature, VariableRecordTypes::FuelPressure, VariableRecordTypes::SKESlot, VariableRecordTypes::SKELead, VariableRecordTypes::SKEFrequency, VariableRecordTypes::FCICmd, VariableRecordTypes::FCINum, VariableRecordTypes::SKEBitField, VariableRecordTypes::FormationPosition, VariableRecordTypes::FormationNumber, VariableRecordTypes::FFSModeActive, VariableRecordTypes::FFSRole, VariableRecordTypes::FFSVCAS, VariableRecordTypes::FFSBitField, VariableRecordTypes::FFSCallSign, VariableRecordTypes::FFSGuidanceData, VariableRecordTypes::FFSTextData, VariableRecordTypes::FFSAirdropRequestData, VariableRecordTypes::FFSAirdropData, VariableRecordTypes::HorizontalCircularErrorProbable, VariableRecordTypes::HorizontalPositionError, VariableRecordTypes::VerticalPositionError, VariableRecordTypes::HorizontalVelocityError, VariableRecordTypes::VerticalVelocityError, VariableRecordTypes::_4thLowestJammertoSignalRatioforP1, VariableRecordTypes::_4thLowestJammertoSignalRatioforP2, VariableRecordTypes::GPSFigureofMerit, VariableRecordTypes::WeaponTransferGPSState, VariableRecordTypes::WeaponTransferHorizontalPositionError, VariableRecordTypes::WeaponTransferVerticalPositionError1, VariableRecordTypes::WeaponTransferVerticalPositionError2, VariableRecordTypes::WeaponTransferHorizontalVelocityError, VariableRecordTypes::TimeTransferError, VariableRecordTypes::AgeofEphemeris, VariableRecordTypes::NonFlyoutMunitionEntityRequestDISTypeEnumeration, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestMaximumAltitude, VariableRecordTypes::NonFlyoutMunitionEntityRequestFlightPath, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointX, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointY, VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointZ, VariableRecordTypes::NonFlyoutMunitionEntityRequestElapsedFlightTime, VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchTime, VariableRecordTypes::TimeError, VariableRecordTypes::Link16CommandVariety1, VariableRecordTypes::Push, VariableRecordTypes::Rolex, VariableRecordTypes::TerminateIntercept, VariableRecordTypes::HealDamage, VariableRecordTypes::Destroy, VariableRecordTypes::TransferControlManagement, VariableRecordTypes::Link16ControlsPPLIEnable, VariableRecordTypes::Link16ControlsCommandControlEnable, VariableRecordTypes::Link16ReferencePointMessageInitiation, VariableRecordTypes::AssignExternalEntityLink16TrackNumber, VariableRecordTypes::Link16IntelligenceInfo, VariableRecordTypes::Link16TrackManagement, VariableRecordTypes::Link16ControlsCESGlobalPPLIPublish, VariableRecordTypes::Link16ControlsCESGlobalSurveillancePublish, VariableRecordTypes::RequestGlobalLink16Configuration, VariableRecordTypes::Link16ControlsSurveillanceEnable, VariableRecordTypes::Link16Pointer, VariableRecordTypes::Link16Vector, VariableRecordTypes::Link16ControlUnitChange, VariableRecordTypes::Link16Text, VariableRecordTypes::RequestLink16Objects, VariableRecordTypes::Link16RefObjectNameList, VariableRecordTypes::TotalNumberofPDUsinLink16RefObjectsResponse, VariableRecordTypes::PDUNumberinLink16RefObjectsResponse, VariableRecordTypes::TotalNumberofLink16RefObjects, VariableRecordTypes::Link16ControlsF2FAEnable, VariableRecordTypes::Link16ControlsF2FBEnable, VariableRecordTypes::STNofFormationLeader, VariableRecordTypes::FormationName, VariableRecordTypes::FormationRole, VariableRecordTypes::SurveillanceContributorSensorBasedDetection, VariableRecordTypes::F2FANPG, VariableRecordTypes::Link16ControlsF2FANet, VariableRecordTypes::F2FBNPG, VariableRecordTypes::Link16ControlsF2FBNet, VariableRecordTypes::SurveillanceEnabledNPB, VariableRecordTypes::SurveillanceEnabledNet, VariableRecordTypes::ControlUnitEnabled, VariableRecordTypes::ControlUnitEnabledNPG, VariableRecordTypes::ControlUnitEnabledNet, VariableRecordTypes::VoiceFrequency, VariableRecordTypes::Link16JTIDSVoiceCallsign, VariableRecordTypes::EntityIDofControlUnit, VariableRecordTypes::STNofControlUnit, VariableRecordTypes::NTRParticipationLevel, VariableRecordTypes::Link16ControlsCESGlobalPPLISubscribe, VariableRecordTypes::Link16ControlsCESGlobalSurveillanceSubscribe, VariableRecordTypes::NTRinMission, VariableRecordTypes::NTRMarking, VariableRecordTypes::NTRReceiptCompliance, VariableRecordTypes::FormationF2FNPG, VariableRecordTypes::FormationF2FChannel, VariableRecordTypes::JLVCLogReport, VariableRecordTypes::JLVCSupplyAdjust, VariableRecordTypes::JLVCEntityControl, VariableRecordTypes::JLVCHealthUpdate, VariableRecordTypes::JLVCRepairComplete, VariableRecordTypes::JLVCUnitActivation, VariableRecordTypes::JLVCBattleDamageRepair, VariableRecordTypes::JLVCMinefield, VariableRecordTypes::JLVCWire, VariableRecordTypes::JLVCAbatis, VariableRecordTypes::JLVCCrater, VariableRecordTypes::JLVCDitch, VariableRecordTypes::JLVCLanes, VariableRecordTypes::JLVCIED, VariableRecordTypes::JLVCRubble, VariableRecordTypes::JLVCSubmergedBarrier, VariableRecordTypes::JLVCFloatingBarrier, VariableRecordTypes::JLVCFoxhole, VariableRecordTypes::JLVCVehicleHole, VariableRecordTypes::JLVCVehicleFortification, VariableRecordTypes::JLVCSandbag, VariableRecordTypes::JLVCCheckpoint, VariableRecordTypes::JLVCContamCloud2D, VariableRecordTypes::JLVCPopulationEffect, VariableRecordTypes::JLVCMine, VariableRecordTypes::JLVCSeaMinefield, VariableRecordTypes::Munition, VariableRecordTypes::EngineFuel, VariableRecordTypes::StorageFuel, VariableRecordTypes::NotUsed, VariableRecordTypes::Expendable, VariableRecordTypes::TotalRecordSets, VariableRecordTypes::LaunchedMunition, VariableRecordTypes::Association, VariableRecordTypes::Sensor, VariableRecordTypes::MunitionReload, VariableRecordTypes::EngineFuelReload, VariableRecordTypes::StorageFuelReload, VariableRecordTypes::ExpendableReload, VariableRecordTypes::IFFChangeControlMode1Code, VariableRecordTypes::IFFChangeControlMode2Code, VariableRecordTypes::IFFChangeControlMode3Code, VariableRecordTypes::IFFChangeControlMode4Code, VariableRecordTypes::IFFChangeControlMode5Code, VariableRecordTypes::IFFChangeControlMode6Code, VariableRecordTypes::Link16Data, VariableRecordTypes::ARMAlert, VariableRecordTypes::IFFChangeControlModeOnOff, VariableRecordTypes::WeaponStatusData, VariableRecordTypes::ExpendableStatusData, VariableRecordTypes::TacticStatusData, VariableRecordTypes::EmitterSensorData, VariableRecordTypes::IOSControlData, VariableRecordTypes::StaticStatusData, VariableRecordTypes::RequestInactiveEntities, VariableRecordTypes::InactiveEntityQuantity, VariableRecordTypes::InactiveEntityID, VariableRecordTypes::InactiveEntityType, VariableRecordTypes::ActivationTriggerType, VariableRecordTypes::ActivationTriggerValue, VariableRecordTypes::AirtoAirMissileQty, VariableRecordTypes::AIM7MissileQty, VariableRecordTypes::AIM9MissileQty, VariableRecordTypes::AIM120MissileQty, VariableRecordTypes::AirtoGroundMissileQty, VariableRecordTypes::SurfacetoAirMissileQty, VariableRecordTypes::BulletQty1, VariableRecordTypes::ChaffQty, VariableRecordTypes::FlareQty, VariableRecordTypes::FuelLevel, VariableRecordTypes::RouteType, VariableRecordTypes::ThreatMode, VariableRecordTypes::TargetOccluded, VariableRecordTypes::TerrainHeight, VariableRecordTypes::EntityStatus, VariableRecordTypes::MarshalStatus, VariableRecordTypes::PowerPlantStatus, VariableRecordTypes::NavLightStatus, VariableRecordTypes::InteriorLightStatus, VariableRecordTypes::LandingLightStatus, VariableRecordTypes::FormationLightStatus, VariableRecordTypes::AntiCollisionLightStatus, VariableRecordTypes::NavFormationFlashRate, VariableRecordTypes::AntiColOnDuration, VariableRecordTypes::AntiColOffDuration, VariableRecordTypes::InterceptStatus, VariableRecordTypes::LifeFormSignalingDeviceType, VariableRecordTypes::LifeFormMovementType, VariableRecordTypes::LifeFormInVehicle, VariableRecordTypes::MobilityKill2, VariableRecordTypes::FirepowerKill, VariableRecordTypes::TankerEnabledDisabled, VariableRecordTypes::ThreatStatusTacticOKtoShootDownWeapons, VariableRecordTypes::TACANChannel2, VariableRecordTypes::TACANBand2, VariableRecordTypes::TACANMode2, VariableRecordTypes::RWRStatus, VariableRecordTypes::UHFRadioFrequency, VariableRecordTypes::EmitJammingStatus, VariableRecordTypes::EmitJammingType, VariableRecordTypes::ReceiveJammingStatus, VariableRecordTypes::RADARMode, VariableRecordTypes::AvailableRADARModes, VariableRecordTypes::JammerPodEnumeration, VariableRecordTypes::JammerPodBehavior, VariableRecordTypes::JammerPodPrograms, VariableRecordTypes::JammerPodReceiverSensitivity, VariableRecordTypes::JammerPodReceiverFrequencyMinimum, VariableRecordTypes::JammerPodReceiverFrequencyMaximum, VariableRecordTypes::JammerPodPower, VariableRecordTypes::JammerPodVariability, VariableRecordTypes::JammerPodNumberofFalseTargets, VariableRecordTypes::JammerPodJammerKnob, VariableRecordTypes::JammerPodMissileJamming, VariableRecordTypes::EmitterOverride2, VariableRecordTypes::JammerOverride, VariableRecordTypes::DisengageReengage2, VariableRecordTypes::HeadingOverride, VariableRecordTypes::AltitudeOverride, VariableRecordTypes::SpeedOverride, VariableRecordTypes::VerboseOverride, VariableRecordTypes::OcclusionOverride, VariableRecordTypes::CommitRange, VariableRecordTypes::CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation, VariableRecordTypes::CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation, VariableRecordTypes::OktoEngageWaypointNumber, VariableRecordTypes::MaxSpeedatSeaLevel, VariableRecordTypes::MaxSpeed, VariableRecordTypes::CurrentWaypointNumber, VariableRecordTypes::RouteInformation, VariableRecordTypes::ThreatStatusStaticMultiTargetTrack, VariableRecordTypes::AirAirIRMissileQty, VariableRecordTypes::AirAirRadarMissileQty, VariableRecordTypes::AirGroundIRMissileQty, VariableRecordTypes::AirGroundRadarMissileQty, VariableRecordTypes::AirGroundAntiRadiationMissileQty, VariableRecordTypes::AirGroundBombQty, VariableRecordTypes::AirGroundRocketQty, VariableRecordTypes::SurfaceAirIRMissileQty, VariableRecordTypes::SurfaceAirRadarMissileQty, VariableRecordTypes::BulletQty2, VariableRecordTypes::PPLIPublishEnabled, VariableRecordTypes::SurveillancePublishEnabled, VariableRecordTypes::NPG, VariableRecordTypes::NPGChannel, VariableRecordTypes::JTIDSTrackNumber, VariableRecordTypes::Link16ControlsSurveillanceReportable, VariableRecordTypes::Link16ControlsSurveillanceTrackQuality, VariableRecordTypes::Link16ControlsTargetPositionQuality, VariableRecordTypes::Link16ControlsQualityErrorType, VariableRecordTypes::Link16ControlsAffiliationDeterminationRule, VariableRecordTypes::Link16ControlsResetEntityAffiliation, VariableRecordTypes::Link16ControlsResetAllAffiliation, VariableRecordTypes::EndofMessages, VariableRecordTypes::MalfunctionActivateDeactivateSet, VariableRecordTypes::MalfunctionStatus, VariableRecordTypes::RequestJTIDSTrackNumbers, VariableRecordTypes::TrackNumbersvsEID, VariableRecordTypes::TotalNumberofJTIDSTrackNumbers, VariableRecordTypes::PDUNumberinJTIDSTrackNumberResponse, VariableRecordTypes::TotalNumberofPDUsinJTIDSTrackNumberResponse, VariableRecordTypes::AirtoAirRefuelerEntitiesRequest, VariableRecordTypes::AirtoAirRefuelingCount, VariableRecordTypes::AirToAirRefuelerEntity, VariableRecordTypes::FormationLibraryRequest, VariableRecordTypes::TotalNumberFormationLibraryPDUs1, VariableRecordTypes::PDUNumberinFormationLibraryResponse1, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDU, VariableRecordTypes::FormationLibraryVariable, VariableRecordTypes::CreateRuntimeFormation, VariableRecordTypes::FormationRequestHeader, VariableRecordTypes::FormationPositionAbsolute, VariableRecordTypes::FormationPositionRelative, VariableRecordTypes::ExpendablesReload, VariableRecordTypes::PositionFreeze, VariableRecordTypes::ActivateOwnship, VariableRecordTypes::Chocks, VariableRecordTypes::WarmupCooldownOverride, VariableRecordTypes::GroundPower, VariableRecordTypes::ScrambleStart, VariableRecordTypes::OwnshipasaThreat, VariableRecordTypes::FuelExternal, VariableRecordTypes::FuelInternal, VariableRecordTypes::FuelTankTemp, VariableRecordTypes::GrossWeight, VariableRecordTypes::AngleOfAttack, VariableRecordTypes::GLoad, VariableRecordTypes::WeightOnWheels, VariableRecordTypes::StoredEnergySystemReload, VariableRecordTypes::KillOverride, VariableRecordTypes::ExpendablesFreeze, VariableRecordTypes::GPSSatellitesEnableDisable, VariableRecordTypes::OwnshipMessageDisplay, VariableRecordTypes::WeaponQuantityFreeze, VariableRecordTypes::GlobalControlFreezeWeaponsQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeFuelQuantityOnAllOwnships, VariableRecordTypes::GlobalControlFreezeKillOverrideOnAllOwnships, VariableRecordTypes::GlobalControlFreezeCrashOverrideOnAllOwnships, VariableRecordTypes::OwnshipOFPBlockNumber, VariableRecordTypes::WaypointInformationQuery, VariableRecordTypes::WaypointInformation, VariableRecordTypes::OwnshipSubsystemStatusData, VariableRecordTypes::CockpitSwitchStatus, VariableRecordTypes::IntegratedControlPanelMessages, VariableRecordTypes::ThrottlePositions, VariableRecordTypes::CurrentCriticalSwitchPosition, VariableRecordTypes::CorrectCriticalSwitchPosition, VariableRecordTypes::CurrentCriticalSwitchData, VariableRecordTypes::CorrectCriticalSwitchData, VariableRecordTypes::MissionInitialConditionsSet, VariableRecordTypes::GlobalControlMalfunctionActiveonAllOwnships, VariableRecordTypes::GlobalControlMalfunctionClearOnAllOwnships, VariableRecordTypes::ValidatedCriticalSwitchReport, VariableRecordTypes::SARMapPathname, VariableRecordTypes::ValidatedCriticalSwitchOwnshipID, VariableRecordTypes::LowerBoomEventReport, VariableRecordTypes::RaiseBoomEventReport, VariableRecordTypes::BreakawayEventReport, VariableRecordTypes::CompleteEventReport, VariableRecordTypes::AuxCommPanelFrequencyDisplay, VariableRecordTypes::NetworkStationInformation, VariableRecordTypes::GlobalControlSelectNetworkStation, VariableRecordTypes::NetworkStationUnderGlobalControl, VariableRecordTypes::GlobalControlStillControlling, VariableRecordTypes::GlobalControlReleaseControlofNetworkStation, VariableRecordTypes::GlobalControlFreezeWeaponQuantity, VariableRecordTypes::GlobalControlFreezeFuelQuantity, VariableRecordTypes::GlobalControlFreezeKillOverride, VariableRecordTypes::GlobalControlFreezeCrashOverride, VariableRecordTypes::GlobalControlMalfunctionActive, VariableRecordTypes::GlobalControlMalfunctionClear, VariableRecordTypes::GlobalControlStartDevices, VariableRecordTypes::GlobalControlFreezeDevices, VariableRecordTypes::GlobalControlJTIDSCommand, VariableRecordTypes::NetworkStationICSetInformation, VariableRecordTypes::GlobalControlResetICSet, VariableRecordTypes::NumberofControllingUnits, VariableRecordTypes::NetworkStationJTIDSControllingUnits, VariableRecordTypes::NetworkStationJTIDSObjectiveTracks, VariableRecordTypes::NumberofReferenceObjects, VariableRecordTypes::NetworkStationJTIDSReferenceObjects, VariableRecordTypes::NetworkedStationStillUnderControl, VariableRecordTypes::GlobalControlDeleteThreatEntities, VariableRecordTypes::NetworkStationOwnshipCallsigns, VariableRecordTypes::GlobalControlRequestFormationLibraryData, VariableRecordTypes::TotalNumberFormationLibraryPDUs2, VariableRecordTypes::PDUNumberinFormationLibraryResponse2, VariableRecordTypes::TotalNumberFormationLibraryItemsinPDUs, VariableRecordTypes::NetworkStationFormationLibraryItem, VariableRecordTypes::GlobalControlAddRelativeFormation, VariableRecordTypes::NetworkStationTICFilename, VariableRecordTypes::GlobalControlFreezeWarmupOverride, VariableRecordTypes::GlobalControlReloadSES, VariableRecordTypes::GlobalControlReloadWeapons, VariableRecordTypes::GlobalControlReloadExpendables, VariableRecordTypes::GlobalControlReloadFuel, VariableRecordTypes::GlobalControlReloadFirebottle, VariableRecordTypes::TestPattern, VariableRecordTypes::AudioTest, VariableRecordTypes::AudioTone, VariableRecordTypes::CalibrateThrottles, VariableRecordTypes::OperationalLimitsEventReport, VariableRecordTypes::OperationalLimits, VariableRecordTypes::EventMarkerMessage, VariableRecordTypes::ReceiverAircraftAeroModelData, VariableRecordTypes::TankerAircraftAeroModelData, VariableRecordTypes::BoomAircraftAeroModelData, VariableRecordTypes::AccesstoImageGeneratorData1, VariableRecordTypes::AccesstoImageGeneratorData2, VariableRecordTypes::AccesstoImageGeneratorData3, VariableRecordTypes::AccesstoImageGeneratorData4, VariableRecordTypes::AccesstoImageGeneratorData5, VariableRecordTypes::AccesstoImageGeneratorData6, VariableRecordTypes::AccesstoImageGeneratorData7, VariableRecordTypes::AccesstoImageGeneratorData8, VariableRecordTypes::AccesstoImageGeneratorData9, VariableRecordTypes::AccesstoImageGeneratorData10, VariableRecordTypes::AccesstoImageGeneratorData11, VariableRecordTypes::AccesstoImageGeneratorData12, VariableRecordTypes::AccesstoImageGeneratorData13, VariableRecordTypes::AccesstoImageGeneratorData14, VariableRecordTypes::AccesstoImageGeneratorData15, VariableRecordTypes::AccesstoImageGeneratorData16, VariableRecordTypes::HostLoadNumber, VariableRecordTypes::ExtendedFireEventReports, VariableRecordTypes::BattleDamageAssessmentEventReport, VariableRecordTypes::ExtendedFireEventLauncher, VariableRecordTypes::ExtendedFireEventMissile, VariableRecordTypes::ExtendedFireEventMRMWeapon, VariableRecordTypes::ExtendedFireEventGunFireControl, VariableRecordTypes::ExtendedFireEventBomb, VariableRecordTypes::ExtendedFireEventExpendable, VariableRecordTypes::BattleDamageAssessment, VariableRecordTypes::ExtendedFirePickleEvent, VariableRecordTypes::RadarTrackReport, VariableRecordTypes::JammerReport, VariableRecordTypes::JammerFalseTargetsReport, VariableRecordTypes::DetectEventReport, VariableRecordTypes::MALDBeamReport, VariableRecordTypes::TransmitterRadiationVolume, VariableRecordTypes::TransmitterRadiationVolumev2, VariableRecordTypes::PhysicalNetworkDefinition, VariableRecordTypes::NetworkChannelDefinition, VariableRecordTypes::LogicalNetworkDefinition, VariableRecordTypes::LogicalNetworkEntityDefinition, VariableRecordTypes::PhysicalNetworkEntityDefinition, VariableRecordTypes::C2Message, VariableRecordTypes::CandidateObject, VariableRecordTypes::SetofCandidateObjects, VariableRecordTypes::BoundedRegion, VariableRecordTypes::AngularRegion, VariableRecordTypes::RoEObject, VariableRecordTypes::TrackObject, VariableRecordTypes::SetOfTrackObjects, VariableRecordTypes::LogicalEntityDefinition, VariableRecordTypes::LogicalEntityRelationshipDefinition, VariableRecordTypes::IntentBasedEWMessage];
const VARIABLERECORDTYPES_NUM: &[u32] = &[1, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1009, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1061, 1111, 1112, 1114, 1115, 1116, 1118, 1119, 1120, 1200, 3000, 3500, 3501, 3502, 4000, 4001, 4500, 5000, 5001, 5002, 5003, 5004, 5005, 5006, 5007, 5008, 5009, 5010, 5011, 5012, 5013, 5014, 5500, 5501, 10000, 10010, 10020, 10030, 10110, 10115, 10140, 10150, 10157, 10160, 10170, 10190, 10250, 10254, 10256, 10258, 10259, 10262, 10263, 10264, 10267, 10268, 10280, 10290, 10300, 10306, 10307, 10308, 10310, 10311, 10312, 10313, 10314, 10315, 10316, 10400, 10600, 11000, 11100, 11110, 11120, 11130, 11140, 11150, 11160, 11170, 11180, 11200, 11300, 11500, 11501, 11502, 11503, 11504, 12000, 12110, 12120, 12130, 12140, 12150, 12160, 12170, 12300, 13000, 13100, 13200, 14000, 14200, 14300, 14400, 14500, 14520, 14540, 14600, 14700, 14800, 15000, 15100, 15200, 15300, 15400, 15500, 15510, 15600, 15800, 19177, 20000, 21000, 21100, 21200, 21300, 23000, 23100, 23105, 24000, 24001, 24002, 24003, 24004, 24005, 24006, 24007, 24008, 24009, 24010, 24060, 24100, 24110, 24120, 24130, 24140, 24150, 24160, 24300, 25000, 26000, 27000, 28000, 30000, 30010, 30100, 30300, 30400, 30401, 30402, 30403, 30404, 30405, 30406, 30407, 30408, 30409, 30410, 30411, 30412, 30413, 30414, 30415, 30416, 30417, 30418, 30419, 30420, 30421, 30422, 30423, 30424, 30425, 30426, 30427, 30428, 30429, 30430, 30431, 31000, 31010, 31100, 31200, 31210, 31220, 31230, 31300, 31400, 31500, 31510, 31520, 31530, 31600, 31700, 31800, 31900, 32000, 32100, 32200, 32300, 32500, 32600, 32700, 33000, 33100, 33101, 33200, 33300, 33400, 33500, 33600, 33710, 33720, 33730, 34000, 34100, 34110, 35000, 35050, 35100, 35200, 35300, 36000, 36100, 36200, 36300, 36400, 37000, 37100, 37200, 37300, 38100, 39000, 40000, 40010, 40015, 40020, 41000, 42000, 42100, 42200, 42300, 43000, 43100, 43200, 43300, 43410, 43420, 43430, 43440, 44000, 44100, 44110, 44120, 44130, 44140, 44200, 44210, 44220, 44230, 44240, 44300, 44310, 44320, 44330, 44340, 44400, 44410, 44420, 44430, 44440, 44500, 44510, 44520, 44530, 44540, 45000, 45005, 45010, 45020, 45030, 45040, 45050, 45060, 45070, 45080, 46000, 46010, 50000, 50103, 50106, 50118, 50120, 50124, 50126, 50600, 50700, 51000, 51010, 51100, 51110, 51111, 52000, 52001, 52100, 52200, 52300, 52305, 52310, 52320, 52330, 52340, 52350, 52360, 52370, 52380, 52400, 52410, 52420, 52430, 52440, 52500, 52510, 52511, 52520, 52530, 52600, 52601, 52602, 52610, 52620, 52630, 53000, 53050, 53060, 53100, 53200, 53250, 53300, 53350, 53400, 53410, 53420, 53430, 54000, 54100, 55000, 55100, 55101, 55105, 55200, 55300, 55401, 55410, 55420, 55425, 55430, 55435, 56000, 56100, 56105, 56110, 56111, 56120, 56121, 56130, 56140, 56200, 56205, 56210, 56220, 56221, 56230, 56231, 56240, 56310, 56320, 56330, 56340, 56350, 57200, 57300, 57400, 57410, 57411, 57420, 57421, 57500, 57610, 57611, 57620, 57621, 58000, 58100, 58105, 58200, 58430, 58435, 59000, 59100, 59110, 59115, 59120, 59125, 59130, 59135, 59140, 59145, 59150, 59155, 59160, 60000, 61005, 61100, 61101, 61200, 61300, 61400, 61500, 61600, 61700, 62100, 62101, 62200, 62300, 62400, 62500, 63101, 63102, 63103, 63104, 63105, 63106, 63107, 63108, 63109, 63110, 63111, 63112, 63113, 63114, 63115, 70000, 71000, 71100, 71200, 71300, 72000, 72100, 72600, 72700, 73000, 74000, 75000, 75100, 75200, 90000, 90050, 90070, 90100, 90200, 90300, 90400, 90500, 90600, 90700, 90800, 90900, 91000, 91100, 91200, 91300, 91400, 91500, 91600, 100001, 100002, 100003, 100004, 100005, 100008, 100010, 100011, 100012, 100014, 100047, 100048, 100058, 100061, 100063, 100068, 100100, 100160, 100161, 100162, 100163, 100164, 100165, 100166, 100167, 100169, 100170, 100171, 100172, 100200, 100205, 100206, 100207, 100208, 100213, 100214, 100218, 100300, 100400, 100500, 100510, 100520, 100600, 100610, 100620, 100631, 100632, 100633, 100634, 100640, 100650, 100660, 100661, 100662, 100700, 100800, 100900, 101000, 101100, 101200, 101300, 101310, 101320, 101321, 101330, 101340, 101350, 101360, 101370, 101400, 101500, 102100, 102200, 200201, 200202, 200203, 200204, 200205, 200207, 200210, 200211, 200213, 200214, 200215, 200216, 200217, 200301, 200302, 200303, 200304, 200305, 200307, 200310, 200311, 200313, 200314, 200315, 200316, 200317, 200400, 200401, 200402, 200403, 200404, 200405, 200406, 200407, 200408, 200409, 200410, 200411, 200412, 200413, 200414, 200415, 200416, 200417, 200418, 200419, 200420, 200421, 200422, 200423, 200424, 200425, 200426, 200427, 200428, 200429, 200430, 200431, 200432, 200433, 200434, 200435, 200436, 200437, 200501, 200502, 200503, 200504, 200505, 200506, 200507, 200508, 200509, 200510, 200511, 200512, 200513, 200514, 200515, 200516, 200517, 200518, 200519, 200521, 200522, 200523, 200524, 200525, 200600, 200601, 200602, 200603, 200604, 200605, 200606, 200607, 200608, 200609, 200610, 200611, 200612, 200613, 240000, 240001, 240002, 240003, 240004, 240005, 240006, 240007, 240008, 240009, 240010, 240011, 240012, 240013, 240014, 240015, 240016, 240017, 240018, 240019, 240020, 240021, 240022, 240023, 240024, 240025, 240026, 240027, 240028, 240029, 240030, 240031, 240032, 240033, 240034, 240035, 240036, 240037, 240038, 240039, 240040, 240041, 240042, 240043, 240044, 240045, 240046, 240047, 240048, 240049, 240050, 240051, 240052, 240053, 240054, 240055, 240056, 240057, 240058, 240059, 240060, 240061, 240062, 240063, 240064, 240065, 240066, 240067, 240068, 240069, 240070, 240071, 240072, 240073, 240074, 240075, 240076, 240077, 240078, 240079, 240080, 240081, 240082, 240083, 240084, 240085, 240086, 240087, 240088, 240089, 240090, 240091, 240092, 240093, 240094, 240095, 240096, 240097, 240098, 240099, 240100, 240101, 240102, 240103, 240104, 240105, 240106, 240107, 240108, 240109, 240110, 240111, 240112, 240113, 240114, 240115, 240116, 240117, 240118, 240119, 240120, 240121, 240122, 240123, 240124, 240125, 240126, 240127, 240128, 240129, 240130, 240131, 240132, 240133, 240134, 240135, 240136, 240137, 240138, 240139, 240140, 240141, 240142, 240143, 240144, 240145, 240146, 240147, 240148, 240149, 240150, 240151, 240152, 240153, 270115, 270116, 270117, 270150, 270151, 270152, 270153, 270154, 270155, 270156, 270157, 270158, 270159, 270160, 270161, 270162, 270163, 270164, 270165, 270166, 300000, 300001, 300002, 300003, 300004, 300005, 300006, 300007, 300008, 300009, 300010, 300011, 300012, 300013, 300014, 300016, 300017, 300018, 300019, 300020, 300021, 300022, 300023, 300024, 300025, 300026, 300027, 301100, 301130, 301140, 301150, 301151, 301152, 301160, 301170, 301171, 301174, 301175, 301176, 301177, 301178, 301179, 301180, 301181, 301182, 301183, 301184, 301185, 301186, 301187, 301189, 301190, 301191, 301197, 301198, 301199, 301200, 301201, 301202, 301220, 301221, 301222, 301223, 301224, 301225, 301226, 301227, 301228, 301229, 301234, 301237, 301238, 301239, 301240, 301241, 301242, 301243, 301244, 301255, 301256, 400008, 400009, 400010, 400011, 400012, 400013, 400014, 400015, 400016, 400017, 400018, 400019, 400020, 400021, 400022, 400023, 400024, 400025, 400026, 400027, 400028, 400029, 400030, 400031, 400032, 400033, 500001, 500002, 500003, 500004, 500005, 500006, 500007, 500008, 500009, 500010, 500011, 500012, 500013, 500014, 500015, 500016, 500017, 500018, 500019, 500021, 500022, 500023, 500024, 500025, 500026, 500027, 500028, 500029, 500200, 500201, 500202, 500203, 500204, 500205, 551001, 551002, 551003, 551004, 551005, 551006, 551007, 552001, 552002, 553001, 553002, 553003, 553004, 553005, 553006, 553007, 553008, 553009, 553010, 553011, 553012, 553013, 553014, 553015, 553016, 553017, 553018, 553019, 553020, 553021, 553022, 553028, 553029, 554001, 554002, 554003, 554004, 554005, 554006, 554007, 554008, 554009, 554010, 554100, 554101, 554102, 554103, 554104, 554105, 554106, 554107, 554108, 554109, 554110, 555001, 555002, 555003, 555004, 555005, 555006, 555007, 555008, 556001, 556007, 556008, 556016, 556017, 556018, 556019, 556020, 556029, 557001, 557002, 557003, 557004, 557005, 557006, 557007, 557008, 557009, 557010, 559001, 559002, 559003, 559004, 559005, 559006, 559007, 559008, 559009, 559010, 559011, 559012, 559999, 600001, 600002, 600210, 600212, 600214, 600215, 600216, 600218, 600219, 600220, 600300, 600301, 600302, 600303, 600304, 600305, 600306, 600307, 600308, 610006, 610007, 610008, 610009, 610010, 610011, 610012, 610013, 610015, 610016, 610017, 610025, 610026, 610027, 610029, 610032, 610035, 610036, 610037, 610040, 610042, 610043, 610044, 610045, 610046, 610047, 610048, 610049, 610050, 613002, 613003, 613004, 613005, 613006, 613007, 613008, 613013, 613016, 613017, 613020, 613021, 613022, 613027, 613028, 613029, 613030, 613031, 615000, 615001, 615002, 615003, 615004, 615005, 615006, 615007, 615008, 615009, 615010, 615011, 615012, 615013, 615015, 615017, 615018, 615019, 615020, 615021, 615022, 615023, 615024, 615025, 615026, 615027, 615028, 615029, 615030, 615031, 615032, 615033, 615034, 615035, 615036, 615037, 615038, 700000, 700001, 700002, 700003, 700004, 700005, 1000620, 2000000, 2000010, 2000020, 2000030, 2000031, 2000032, 2000033, 2000034, 2000035, 2000036, 2000037, 2000038, 2000039, 2000040, 2000041, 2000042, 2000043, 2000044, 2000045, 2000050, 5005001, 5005002, 5005003, 5005006, 5005008, 5005009, 5005010, 5005011, 5005012, 5005014, 5005055, 5005060, 5005061, 5005063, 5005070, 5005080, 5005081, 5007010, 5007020, 5007030, 5007040, 5007050, 5008010, 5008020, 5008030, 5008040, 5008050, 5008060, 5008070, 5008080, 5009010, 5009020, 5507010];
pub fn variablerecordtypes_value(v: VariableRecordTypes) -> u32 { match v {
    VariableRecordTypes::EntityIDList => 1,
    VariableRecordTypes::DDCPJoinTransactionJoinRequestMessage => 1001,
    VariableRecordTypes::DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage => 1002,
    VariableRecordTypes::DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage => 1003,
    VariableRecordTypes::DDCPCueTransactionCueRequestMessage => 1004,
    VariableRecordTypes::DDCPPlayTransactionPlayRequestMessage => 1005,
    VariableRecordTypes::DDCPStopTransactionStopRequestMessage => 1006,
    VariableRecordTypes::DDCPPauseTransactionPauseRequestMessage => 1007,
    VariableRecordTypes::DDCPEndTransactionEndRequestMessage => 1009,
    VariableRecordTypes::DDCPJoinResponseMessage => 1051,
    VariableRecordTypes::DDCPRequestReceiptMessage => 1052,
    VariableRecordTypes::DDCPPlaybackWindowConfirmedMessage => 1053,
    VariableRecordTypes::DDCPMissionRecordingLoadedMessage => 1054,
    VariableRecordTypes::DDCPCueConfirmedMessage => 1055,
    VariableRecordTypes::DDCPTimetoCompleteMessage => 1056,
    VariableRecordTypes::DDCPPlayCommencedMessage => 1057,
    VariableRecordTypes::DDCPStopConfirmedMessage => 1058,
    VariableRecordTypes::DDCPPauseConfirmedMessage => 1059,
    VariableRecordTypes::DDCPEndResponseMessage => 1061,
    VariableRecordTypes::DDCPMasterAnnounceMessage => 1111,
    VariableRecordTypes::DDCPDeviceAnnounceMessage => 1112,
    VariableRecordTypes::DDCPDeviceExitMessage => 1114,
    VariableRecordTypes::DDCPDeviceHeartbeatMessage => 1115,
    VariableRecordTypes::DDCPMasterTimeSyncMessage => 1116,
    VariableRecordTypes::DDCPErrorMessage => 1118,
    VariableRecordTypes::DDCPMasterStopSyncMessage => 1119,
    VariableRecordTypes::DDCPMasterTransitionMessage => 1120,
    VariableRecordTypes::MissionTime => 1200,
    VariableRecordTypes::HighFidelityHAVEQUICKSATURNRadio => 3000,
    VariableRecordTypes::BlankingSectorattributerecord => 3500,
    VariableRecordTypes::AngleDeceptionattributerecord => 3501,
    VariableRecordTypes::FalseTargetsattributerecord => 3502,
    VariableRecordTypes::DEPrecisionAimpointrecord => 4000,
    VariableRecordTypes::DEAreaAimpointrecord => 4001,
    VariableRecordTypes::DirectedEnergyDamageDescriptionrecord => 4500,
    VariableRecordTypes::CryptoControl => 5000,
    VariableRecordTypes::Mode5STransponderLocation => 5001,
    VariableRecordTypes::Mode5STransponderLocationError => 5002,
    VariableRecordTypes::SquitterAirbornePositionReport => 5003,
    VariableRecordTypes::SquitterAirborneVelocityReport => 5004,
    VariableRecordTypes::SquitterSurfacePositionReport => 5005,
    VariableRecordTypes::SquitterIdentificationReport => 5006,
    VariableRecordTypes::GICB => 5007,
    VariableRecordTypes::SquitterEventDrivenReport => 5008,
    VariableRecordTypes::AntennaLocation => 5009,
    VariableRecordTypes::BasicInteractive => 5010,
    VariableRecordTypes::InteractiveMode4Reply => 5011,
    VariableRecordTypes::InteractiveMode5Reply => 5012,
    VariableRecordTypes::InteractiveBasicMode5 => 5013,
    VariableRecordTypes::InteractiveBasicModeS => 5014,
    VariableRecordTypes::IOEffect => 5500,
    VariableRecordTypes::IOCommunicationsNode => 5501,
    VariableRecordTypes::Identification1 => 10000,
    VariableRecordTypes::TrainerInitialConditionsFilename => 10010,
    VariableRecordTypes::Increment3_1MissionDataLoadName => 10020,
    VariableRecordTypes::Increment2MissionDataLoadName => 10030,
    VariableRecordTypes::SetMarkpointCommand => 10110,
    VariableRecordTypes::MarkpointID => 10115,
    VariableRecordTypes::ReactionLevel => 10140,
    VariableRecordTypes::WeaponReload => 10150,
    VariableRecordTypes::CESEntitySetClearStatus => 10157,
    VariableRecordTypes::ActivateEntity => 10160,
    VariableRecordTypes::DisengageReengage1 => 10170,
    VariableRecordTypes::FuelFreeze => 10190,
    VariableRecordTypes::FireLaunchDispense => 10250,
    VariableRecordTypes::TargetAssignment => 10254,
    VariableRecordTypes::CICEnable => 10256,
    VariableRecordTypes::ShootInhibit => 10258,
    VariableRecordTypes::Posture => 10259,
    VariableRecordTypes::JammerState => 10262,
    VariableRecordTypes::JammerType => 10263,
    VariableRecordTypes::DynamicTargeting => 10264,
    VariableRecordTypes::ManualJammingOnOverride => 10267,
    VariableRecordTypes::SOJAxis => 10268,
    VariableRecordTypes::EmitterOverride1 => 10280,
    VariableRecordTypes::Shields1 => 10290,
    VariableRecordTypes::CrashOverride => 10300,
    VariableRecordTypes::StopBuzzer => 10306,
    VariableRecordTypes::TargetLasingOnOff => 10307,
    VariableRecordTypes::TargetLasingLaserCode => 10308,
    VariableRecordTypes::PowerPlant => 10310,
    VariableRecordTypes::TacticalLightingOnOffControlLightControl => 10311,
    VariableRecordTypes::TacticalLightingBlinkerControlBlinkerValue => 10312,
    VariableRecordTypes::TacticalLightingOnOffControlLightControlType => 10313,
    VariableRecordTypes::ParkVehicle => 10314,
    VariableRecordTypes::SignalingOnOff => 10315,
    VariableRecordTypes::SignalingDevice => 10316,
    VariableRecordTypes::OwnshipID => 10400,
    VariableRecordTypes::StateChange => 10600,
    VariableRecordTypes::EntityType1 => 11000,
    VariableRecordTypes::Concatenated => 11100,
    VariableRecordTypes::Kind => 11110,
    VariableRecordTypes::Domain => 11120,
    VariableRecordTypes::Country => 11130,
    VariableRecordTypes::Category => 11140,
    VariableRecordTypes::Subcategory => 11150,
    VariableRecordTypes::Specific => 11160,
    VariableRecordTypes::Extra => 11170,
    VariableRecordTypes::ForceID1 => 11180,
    VariableRecordTypes::ForceID2 => 11200,
    VariableRecordTypes::Description => 11300,
    VariableRecordTypes::TankerBoomControl => 11500,
    VariableRecordTypes::AirportLights => 11501,
    VariableRecordTypes::WeatherPost => 11502,
    VariableRecordTypes::LocalizerandGlideSlope => 11503,
    VariableRecordTypes::TACANNavAids => 11504,
    VariableRecordTypes::AlternativeEntityType1 => 12000,
    VariableRecordTypes::Kind2 => 12110,
    VariableRecordTypes::Domain2 => 12120,
    VariableRecordTypes::Country2 => 12130,
    VariableRecordTypes::Category2 => 12140,
    VariableRecordTypes::Subcategory2 => 12150,
    VariableRecordTypes::Specific2 => 12160,
    VariableRecordTypes::Extra2 => 12170,
    VariableRecordTypes::Description2 => 12300,
    VariableRecordTypes::EntityMarking => 13000,
    VariableRecordTypes::EntityMarkingCharacters => 13100,
    VariableRecordTypes::CrewID => 13200,
    VariableRecordTypes::TaskOrganization => 14000,
    VariableRecordTypes::RegimentName => 14200,
    VariableRecordTypes::BattalionName => 14300,
    VariableRecordTypes::CompanyName => 14400,
    VariableRecordTypes::PlatoonName => 14500,
    VariableRecordTypes::SquadName => 14520,
    VariableRecordTypes::TeamName => 14540,
    VariableRecordTypes::BumperNumber => 14600,
    VariableRecordTypes::VehicleNumber => 14700,
    VariableRecordTypes::UnitNumber => 14800,
    VariableRecordTypes::DISIdentity => 15000,
    VariableRecordTypes::DISSiteID => 15100,
    VariableRecordTypes::DISHostID => 15200,
    VariableRecordTypes::DISEntityID => 15300,
    VariableRecordTypes::MountIntent => 15400,
    VariableRecordTypes::TetherUnthetherCommandID => 15500,
    VariableRecordTypes::TeleportEntityDataRecord => 15510,
    VariableRecordTypes::DISAggregateID => 15600,
    VariableRecordTypes::OwnershipStatus => 15800,
    VariableRecordTypes::Reconstitute => 19177,
    VariableRecordTypes::Loads => 20000,
    VariableRecordTypes::CrewMembers => 21000,
    VariableRecordTypes::CrewMemberID => 21100,
    VariableRecordTypes::Health => 21200,
    VariableRecordTypes::JobAssignment => 21300,
    VariableRecordTypes::Fuel => 23000,
    VariableRecordTypes::Quantity1 => 23100,
    VariableRecordTypes::Quantity2 => 23105,
    VariableRecordTypes::Ammunition => 24000,
    VariableRecordTypes::_120mmHEATquantity => 24001,
    VariableRecordTypes::_120mmSABOTquantity => 24002,
    VariableRecordTypes::_12_7mmM8quantity => 24003,
    VariableRecordTypes::_12_7mmM20quantity => 24004,
    VariableRecordTypes::_7_62mmM62quantity => 24005,
    VariableRecordTypes::M250UKL8A1quantity => 24006,
    VariableRecordTypes::M250UKL8A3quantity => 24007,
    VariableRecordTypes::_7_62mmM80quantity => 24008,
    VariableRecordTypes::_12_7mmquantity => 24009,
    VariableRecordTypes::_7_62mmquantity => 24010,
    VariableRecordTypes::Minesquantity => 24060,
    VariableRecordTypes::Type => 24100,
    VariableRecordTypes::Kind3 => 24110,
    VariableRecordTypes::Domain3 => 24120,
    VariableRecordTypes::Country3 => 24130,
    VariableRecordTypes::Category3 => 24140,
    VariableRecordTypes::Subcategory3 => 24150,
    VariableRecordTypes::Extra3 => 24160,
    VariableRecordTypes::Description3 => 24300,
    VariableRecordTypes::Cargo => 25000,
    VariableRecordTypes::VehicleMass => 26000,
    VariableRecordTypes::SupplyQuantity => 27000,
    VariableRecordTypes::Armament => 28000,
    VariableRecordTypes::Status => 30000,
    VariableRecordTypes::Activateentity => 30010,
    VariableRecordTypes::SubscriptionState => 30100,
    VariableRecordTypes::Roundtriptimedelay => 30300,
    VariableRecordTypes::TADILJmessagecountLabel0 => 30400,
    VariableRecordTypes::TADILJmessagecountLabel1 => 30401,
    VariableRecordTypes::TADILJmessagecountLabel2 => 30402,
    VariableRecordTypes::TADILJmessagecountLabel3 => 30403,
    VariableRecordTypes::TADILJmessagecountLabel4 => 30404,
    VariableRecordTypes::TADILJmessagecountLabel5 => 30405,
    VariableRecordTypes::TADILJmessagecountLabel6 => 30406,
    VariableRecordTypes::TADILJmessagecountLabel7 => 30407,
    VariableRecordTypes::TADILJmessagecountLabel8 => 30408,
    VariableRecordTypes::TADILJmessagecountLabel9 => 30409,
    VariableRecordTypes::TADILJmessagecountLabel10 => 30410,
    VariableRecordTypes::TADILJmessagecountLabel11 => 30411,
    VariableRecordTypes::TADILJmessagecountLabel12 => 30412,
    VariableRecordTypes::TADILJmessagecountLabel13 => 30413,
    VariableRecordTypes::TADILJmessagecountLabel14 => 30414,
    VariableRecordTypes::TADILJmessagecountLabel15 => 30415,
    VariableRecordTypes::TADILJmessagecountLabel16 => 30416,
    VariableRecordTypes::TADILJmessagecountLabel17 => 30417,
    VariableRecordTypes::TADILJmessagecountLabel18 => 30418,
    VariableRecordTypes::TADILJmessagecountLabel19 => 30419,
    VariableRecordTypes::TADILJmessagecountLabel20 => 30420,
    VariableRecordTypes::TADILJmessagecountLabel21 => 30421,
    VariableRecordTypes::TADILJmessagecountLabel22 => 30422,
    VariableRecordTypes::TADILJmessagecountLabel23 => 30423,
    VariableRecordTypes::TADILJmessagecountLabel24 => 30424,
    VariableRecordTypes::TADILJmessagecountLabel25 => 30425,
    VariableRecordTypes::TADILJmessagecountLabel26 => 30426,
    VariableRecordTypes::TADILJmessagecountLabel27 => 30427,
    VariableRecordTypes::TADILJmessagecountLabel28 => 30428,
    VariableRecordTypes::TADILJmessagecountLabel29 => 30429,
    VariableRecordTypes::TADILJmessagecountLabel30 => 30430,
    VariableRecordTypes::TADILJmessagecountLabel31 => 30431,
    VariableRecordTypes::Position => 31000,
    VariableRecordTypes::Routetype => 31010,
    VariableRecordTypes::MilGrid10 => 31100,
    VariableRecordTypes::GeocentricCoordinates => 31200,
    VariableRecordTypes::X => 31210,
    VariableRecordTypes::Y => 31220,
    VariableRecordTypes::Z => 31230,
    VariableRecordTypes::Latitude1 => 31300,
    VariableRecordTypes::Longitude1 => 31400,
    VariableRecordTypes::LineofSight => 31500,
    VariableRecordTypes::X1 => 31510,
    VariableRecordTypes::Y1 => 31520,
    VariableRecordTypes::Z1 => 31530,
    VariableRecordTypes::Altitude2 => 31600,
    VariableRecordTypes::DestinationLatitude => 31700,
    VariableRecordTypes::DestinationLongitude => 31800,
    VariableRecordTypes::DestinationAltitude => 31900,
    VariableRecordTypes::Orientation => 32000,
    VariableRecordTypes::HullHeadingAngle => 32100,
    VariableRecordTypes::HullPitchAngle => 32200,
    VariableRecordTypes::RollAngle => 32300,
    VariableRecordTypes::X2 => 32500,
    VariableRecordTypes::Y2 => 32600,
    VariableRecordTypes::Z2 => 32700,
    VariableRecordTypes::Appearance => 33000,
    VariableRecordTypes::AmbientLighting => 33100,
    VariableRecordTypes::Lights1 => 33101,
    VariableRecordTypes::PaintScheme => 33200,
    VariableRecordTypes::Smoke => 33300,
    VariableRecordTypes::TrailingEffects => 33400,
    VariableRecordTypes::Flaming => 33500,
    VariableRecordTypes::Marking => 33600,
    VariableRecordTypes::MinePlowsAttached => 33710,
    VariableRecordTypes::MineRollersAttached => 33720,
    VariableRecordTypes::TankTurretAzimuth => 33730,
    VariableRecordTypes::FailuresandMalfunctions => 34000,
    VariableRecordTypes::Age => 34100,
    VariableRecordTypes::Kilometers => 34110,
    VariableRecordTypes::Damage => 35000,
    VariableRecordTypes::Cause => 35050,
    VariableRecordTypes::MobilityKill1 => 35100,
    VariableRecordTypes::FirePowerKill => 35200,
    VariableRecordTypes::PersonnelCasualties => 35300,
    VariableRecordTypes::Velocity => 36000,
    VariableRecordTypes::Xvelocity => 36100,
    VariableRecordTypes::Yvelocity => 36200,
    VariableRecordTypes::Zvelocity => 36300,
    VariableRecordTypes::Speed1 => 36400,
    VariableRecordTypes::Acceleration => 37000,
    VariableRecordTypes::Xacceleration => 37100,
    VariableRecordTypes::Yacceleration => 37200,
    VariableRecordTypes::Zacceleration => 37300,
    VariableRecordTypes::EngineStatus => 38100,
    VariableRecordTypes::PrimaryTargetLine => 39000,
    VariableRecordTypes::Exercise => 40000,
    VariableRecordTypes::ExerciseState => 40010,
    VariableRecordTypes::RestartRefresh => 40015,
    VariableRecordTypes::AFATDSFileName => 40020,
    VariableRecordTypes::TerrainDatabase => 41000,
    VariableRecordTypes::Missions => 42000,
    VariableRecordTypes::MissionID => 42100,
    VariableRecordTypes::MissionType => 42200,
    VariableRecordTypes::MissionRequestTimeStamp => 42300,
    VariableRecordTypes::ExerciseDescription => 43000,
    VariableRecordTypes::Name => 43100,
    VariableRecordTypes::Entities => 43200,
    VariableRecordTypes::Version => 43300,
    VariableRecordTypes::GuiseMode => 43410,
    VariableRecordTypes::SimulationApplicationActiveStatus => 43420,
    VariableRecordTypes::SimulationApplicationRoleRecord => 43430,
    VariableRecordTypes::SimulationApplicationState => 43440,
    VariableRecordTypes::VisualOutputMode => 44000,
    VariableRecordTypes::SimulationManagerRole => 44100,
    VariableRecordTypes::SimulationManagerSiteID => 44110,
    VariableRecordTypes::SimulationManagerApplicID => 44120,
    VariableRecordTypes::SimulationManagerEntityID => 44130,
    VariableRecordTypes::SimulationManagerActiveStatus => 44140,
    VariableRecordTypes::AfterActiveReviewRole => 44200,
    VariableRecordTypes::AfterActiveReviewSiteID => 44210,
    VariableRecordTypes::AfterActiveApplicID => 44220,
    VariableRecordTypes::AfterActiveReviewEntityID => 44230,
    VariableRecordTypes::AfterActiveReviewActiveStatus => 44240,
    VariableRecordTypes::ExerciseLoggerRole => 44300,
    VariableRecordTypes::ExerciseLoggerSiteID => 44310,
    VariableRecordTypes::ExerciseLoggerApplicID => 44320,
    VariableRecordTypes::ExerciseEntityID => 44330,
    VariableRecordTypes::ExerciseLoggerActiveStatus => 44340,
    VariableRecordTypes::SyntheticEnvironmentManagerRole => 44400,
    VariableRecordTypes::SyntheticEnvironmentManagerSiteID => 44410,
    VariableRecordTypes::SyntheticEnvironmentManagerApplicID => 44420,
    VariableRecordTypes::SyntheticEnvironmentManagerEntityID => 44430,
    VariableRecordTypes::SyntheticEnvironmentManagerActiveStatus => 44440,
    VariableRecordTypes::SIMNETDISTranslatorRole => 44500,
    VariableRecordTypes::SIMNETDISTranslatorSiteID => 44510,
    VariableRecordTypes::SIMNETDISTranslatorApplicID => 44520,
    VariableRecordTypes::SIMNETDISTranslatorEntityID => 44530,
    VariableRecordTypes::SIMNETDISTranslatorActiveStatus => 44540,
    VariableRecordTypes::ApplicationRate => 45000,
    VariableRecordTypes::ApplicationTime => 45005,
    VariableRecordTypes::ApplicationTimestep => 45010,
    VariableRecordTypes::FeedbackTime => 45020,
    VariableRecordTypes::SimulationRate => 45030,
    VariableRecordTypes::SimulationTime => 45040,
    VariableRecordTypes::SimulationTimestep => 45050,
    VariableRecordTypes::TimeInterval => 45060,
    VariableRecordTypes::TimeLatency => 45070,
    VariableRecordTypes::TimeScheme => 45080,
    VariableRecordTypes::ExerciseElapsedTime => 46000,
    VariableRecordTypes::ElapsedTime => 46010,
    VariableRecordTypes::Environment => 50000,
    VariableRecordTypes::ScenarioDate => 50103,
    VariableRecordTypes::TimeDateValid => 50106,
    VariableRecordTypes::ScenarioTime => 50118,
    VariableRecordTypes::SnowEnableDisable => 50120,
    VariableRecordTypes::WeatherAttributesRequest => 50124,
    VariableRecordTypes::METHeartbeatMessage => 50126,
    VariableRecordTypes::ContrailsEnable => 50600,
    VariableRecordTypes::ContrailAltitudes => 50700,
    VariableRecordTypes::Weather1 => 51000,
    VariableRecordTypes::WeatherCondition => 51010,
    VariableRecordTypes::ThermalCondition => 51100,
    VariableRecordTypes::ThermalVisibility1 => 51110,
    VariableRecordTypes::ThermalVisibility2 => 51111,
    VariableRecordTypes::Time1 => 52000,
    VariableRecordTypes::Time2 => 52001,
    VariableRecordTypes::TimeofDayDiscrete => 52100,
    VariableRecordTypes::TimeofDayContinuous => 52200,
    VariableRecordTypes::TimeMode => 52300,
    VariableRecordTypes::TimeScene => 52305,
    VariableRecordTypes::CurrentHour => 52310,
    VariableRecordTypes::CurrentMinute => 52320,
    VariableRecordTypes::CurrentSecond => 52330,
    VariableRecordTypes::Azimuth1 => 52340,
    VariableRecordTypes::MaximumElevation => 52350,
    VariableRecordTypes::TimeZone => 52360,
    VariableRecordTypes::TimeRate => 52370,
    VariableRecordTypes::TheNumberOfSimulationSecondsSinceTheStartOfTheExercise => 52380,
    VariableRecordTypes::TimeSunriseEnabled => 52400,
    VariableRecordTypes::SunriseHour => 52410,
    VariableRecordTypes::SunriseMinute => 52420,
    VariableRecordTypes::SunriseSecond => 52430,
    VariableRecordTypes::SunriseAzimuth => 52440,
    VariableRecordTypes::TimeSunsetEnabled => 52500,
    VariableRecordTypes::SunsetHour1 => 52510,
    VariableRecordTypes::SunsetHour2 => 52511,
    VariableRecordTypes::SunsetMinute => 52520,
    VariableRecordTypes::SunsetSecond => 52530,
    VariableRecordTypes::Date1 => 52600,
    VariableRecordTypes::DateEuropean => 52601,
    VariableRecordTypes::DateUS => 52602,
    VariableRecordTypes::Month => 52610,
    VariableRecordTypes::Day => 52620,
    VariableRecordTypes::Year => 52630,
    VariableRecordTypes::Clouds => 53000,
    VariableRecordTypes::CloudLayerEnable => 53050,
    VariableRecordTypes::CloudLayerSelection => 53060,
    VariableRecordTypes::Visibility => 53100,
    VariableRecordTypes::BaseAltitude1 => 53200,
    VariableRecordTypes::BaseAltitude2 => 53250,
    VariableRecordTypes::Ceiling1 => 53300,
    VariableRecordTypes::Ceiling2 => 53350,
    VariableRecordTypes::Characteristics => 53400,
    VariableRecordTypes::ConcentrationLength => 53410,
    VariableRecordTypes::Transmittance => 53420,
    VariableRecordTypes::Radiance => 53430,
    VariableRecordTypes::Precipitation => 54000,
    VariableRecordTypes::Rain => 54100,
    VariableRecordTypes::Fog => 55000,
    VariableRecordTypes::Visibility1 => 55100,
    VariableRecordTypes::Visibility2 => 55101,
    VariableRecordTypes::Visibility3 => 55105,
    VariableRecordTypes::Density1 => 55200,
    VariableRecordTypes::Base => 55300,
    VariableRecordTypes::ViewLayerfromabove_ => 55401,
    VariableRecordTypes::TransitionRange => 55410,
    VariableRecordTypes::Bottom1 => 55420,
    VariableRecordTypes::Bottom2 => 55425,
    VariableRecordTypes::Ceiling3 => 55430,
    VariableRecordTypes::Ceiling4 => 55435,
    VariableRecordTypes::HeavenlyBodies => 56000,
    VariableRecordTypes::Sun => 56100,
    VariableRecordTypes::SunVisible => 56105,
    VariableRecordTypes::Position1 => 56110,
    VariableRecordTypes::SunPositionElevationDegrees => 56111,
    VariableRecordTypes::PositionAzimuth1 => 56120,
    VariableRecordTypes::SunPositionAzimuthDegrees => 56121,
    VariableRecordTypes::PositionElevation1 => 56130,
    VariableRecordTypes::PositionIntensity1 => 56140,
    VariableRecordTypes::Moon => 56200,
    VariableRecordTypes::MoonVisible => 56205,
    VariableRecordTypes::Position2 => 56210,
    VariableRecordTypes::PositionAzimuth2 => 56220,
    VariableRecordTypes::MoonPositionAzimuthDegrees => 56221,
    VariableRecordTypes::PositionElevation2 => 56230,
    VariableRecordTypes::MoonPositionElevationDegrees => 56231,
    VariableRecordTypes::PositionIntensity2 => 56240,
    VariableRecordTypes::Horizon => 56310,
    VariableRecordTypes::HorizonAzimuth => 56320,
    VariableRecordTypes::HorizonElevation => 56330,
    VariableRecordTypes::HorizonHeading => 56340,
    VariableRecordTypes::HorizonIntensity => 56350,
    VariableRecordTypes::Humidity => 57200,
    VariableRecordTypes::Visibility4 => 57300,
    VariableRecordTypes::Winds => 57400,
    VariableRecordTypes::Speed2 => 57410,
    VariableRecordTypes::WindSpeedKnots => 57411,
    VariableRecordTypes::WindDirection1 => 57420,
    VariableRecordTypes::WindDirectionDegrees => 57421,
    VariableRecordTypes::Rainsoak => 57500,
    VariableRecordTypes::TideSpeed => 57610,
    VariableRecordTypes::TideSpeedKnots => 57611,
    VariableRecordTypes::TideDirection => 57620,
    VariableRecordTypes::TideDirectionDegrees => 57621,
    VariableRecordTypes::Haze => 58000,
    VariableRecordTypes::Visibility5 => 58100,
    VariableRecordTypes::Visibility6 => 58105,
    VariableRecordTypes::Density2 => 58200,
    VariableRecordTypes::Ceiling5 => 58430,
    VariableRecordTypes::Ceiling6 => 58435,
    VariableRecordTypes::ContaminantsandObscurants => 59000,
    VariableRecordTypes::ContaminantObscurantType => 59100,
    VariableRecordTypes::Persistence => 59110,
    VariableRecordTypes::ChemicalDosage => 59115,
    VariableRecordTypes::ChemicalAirConcentration => 59120,
    VariableRecordTypes::ChemicalGroundDeposition => 59125,
    VariableRecordTypes::ChemicalMaximumGroundDeposition => 59130,
    VariableRecordTypes::ChemicalDosageThreshold => 59135,
    VariableRecordTypes::BiologicalDosage => 59140,
    VariableRecordTypes::BiologicalAirConcentration => 59145,
    VariableRecordTypes::BiologicalDosageThreshold => 59150,
    VariableRecordTypes::BiologicalBinnedParticleCount => 59155,
    VariableRecordTypes::RadiologicalDosage => 59160,
    VariableRecordTypes::Communications => 60000,
    VariableRecordTypes::FireBottleReload => 61005,
    VariableRecordTypes::ChannelType1 => 61100,
    VariableRecordTypes::ChannelType2 => 61101,
    VariableRecordTypes::ChannelIdentification => 61200,
    VariableRecordTypes::AlphaIdentification => 61300,
    VariableRecordTypes::RadioIdentification => 61400,
    VariableRecordTypes::LandLineIdentification => 61500,
    VariableRecordTypes::IntercomIdentification => 61600,
    VariableRecordTypes::GroupNetworkChannelNumber => 61700,
    VariableRecordTypes::RadioCommunicationsStatus => 62100,
    VariableRecordTypes::BoomInterphone => 62101,
    VariableRecordTypes::StationaryRadioTransmittersDefaultTime => 62200,
    VariableRecordTypes::MovingRadioTransmittersDefaultTime => 62300,
    VariableRecordTypes::StationaryRadioSignalsDefaultTime => 62400,
    VariableRecordTypes::MovingRadioSignalDefaultTime => 62500,
    VariableRecordTypes::RadioInitializationTransecSecurityKey => 63101,
    VariableRecordTypes::RadioInitializationInternalNoiseLevel => 63102,
    VariableRecordTypes::RadioInitializationSquelchThreshold => 63103,
    VariableRecordTypes::RadioInitializationAntennaLocation => 63104,
    VariableRecordTypes::RadioInitializationAntennaPatternType => 63105,
    VariableRecordTypes::RadioInitializationAntennaPatternLength => 63106,
    VariableRecordTypes::RadioInitializationBeamDefinition => 63107,
    VariableRecordTypes::RadioInitializationTransmitHeartbeatTime => 63108,
    VariableRecordTypes::RadioInitializationTransmitDistanceThresholdVariableRecord => 63109,
    VariableRecordTypes::RadioChannelInitializationLockoutID => 63110,
    VariableRecordTypes::RadioChannelInitializationHopsetID => 63111,
    VariableRecordTypes::RadioChannelInitializationPresetFrequency => 63112,
    VariableRecordTypes::RadioChannelInitializationFrequencySyncTime => 63113,
    VariableRecordTypes::RadioChannelInitializationComsecKey => 63114,
    VariableRecordTypes::RadioChannelInitializationAlpha => 63115,
    VariableRecordTypes::AlgorithmParameters => 70000,
    VariableRecordTypes::DeadReckoningAlgorithm1 => 71000,
    VariableRecordTypes::DRALocationThreshold => 71100,
    VariableRecordTypes::DRAOrientationThreshold => 71200,
    VariableRecordTypes::DRATimeThreshold => 71300,
    VariableRecordTypes::SimulationManagementParameters => 72000,
    VariableRecordTypes::CheckpointInterval => 72100,
    VariableRecordTypes::TransmitterTimeThreshold => 72600,
    VariableRecordTypes::ReceiverTimeThreshold => 72700,
    VariableRecordTypes::InteroperabilityMode => 73000,
    VariableRecordTypes::SIMNETDataCollection => 74000,
    VariableRecordTypes::EventID => 75000,
    VariableRecordTypes::SourceSiteID => 75100,
    VariableRecordTypes::SourceHostID => 75200,
    VariableRecordTypes::ArticulatedParts => 90000,
    VariableRecordTypes::PartID => 90050,
    VariableRecordTypes::Index => 90070,
    VariableRecordTypes::Position3 => 90100,
    VariableRecordTypes::PositionRate => 90200,
    VariableRecordTypes::Extension => 90300,
    VariableRecordTypes::ExtensionRate => 90400,
    VariableRecordTypes::X3 => 90500,
    VariableRecordTypes::Xrate => 90600,
    VariableRecordTypes::Y3 => 90700,
    VariableRecordTypes::Yrate => 90800,
    VariableRecordTypes::Z3 => 90900,
    VariableRecordTypes::Zrate => 91000,
    VariableRecordTypes::Azimuth2 => 91100,
    VariableRecordTypes::AzimuthRate => 91200,
    VariableRecordTypes::Elevation => 91300,
    VariableRecordTypes::ElevationRate => 91400,
    VariableRecordTypes::Rotation2 => 91500,
    VariableRecordTypes::RotationRate => 91600,
    VariableRecordTypes::DRAAngularXVelocity => 100001,
    VariableRecordTypes::DRAAngularYVelocity => 100002,
    VariableRecordTypes::DRAAngularZVelocity => 100003,
    VariableRecordTypes::AppearanceTrailingEffects => 100004,
    VariableRecordTypes::AppearanceHatch => 100005,
    VariableRecordTypes::AppearanceCharacterSet => 100008,
    VariableRecordTypes::CapabilityAmmunitionSupplier => 100010,
    VariableRecordTypes::CapabilityMiscellaneousSupplier => 100011,
    VariableRecordTypes::CapabilityRepairProvider => 100012,
    VariableRecordTypes::ArticulationParameter => 100014,
    VariableRecordTypes::ArticulationParameterType1 => 100047,
    VariableRecordTypes::ArticulationParameterValue1 => 100048,
    VariableRecordTypes::TimeofDayScene => 100058,
    VariableRecordTypes::LatitudeNorth => 100061,
    VariableRecordTypes::LongitudeEast => 100063,
    VariableRecordTypes::TacticalDriverStatus => 100068,
    VariableRecordTypes::SonarSystemStatus => 100100,
    VariableRecordTypes::Accomplishedaccept => 100160,
    VariableRecordTypes::Upperlatitude => 100161,
    VariableRecordTypes::LatitudeSouth => 100162,
    VariableRecordTypes::Westernlongitude => 100163,
    VariableRecordTypes::LongitudeWest => 100164,
    VariableRecordTypes::CDROMNumber => 100165,
    VariableRecordTypes::DTEDdiskID => 100166,
    VariableRecordTypes::Altitude3 => 100167,
    VariableRecordTypes::TacticalSystemStatus => 100169,
    VariableRecordTypes::JTIDSStatus => 100170,
    VariableRecordTypes::TADILJStatus => 100171,
    VariableRecordTypes::DSDDStatus => 100172,
    VariableRecordTypes::WeaponSystemStatus => 100200,
    VariableRecordTypes::Subsystemstatus => 100205,
    VariableRecordTypes::Numberofinterceptorsfired => 100206,
    VariableRecordTypes::Numberofinterceptordetonations => 100207,
    VariableRecordTypes::Numberofmessagebuffersdropped => 100208,
    VariableRecordTypes::Satellitesensorbackground1 => 100213,
    VariableRecordTypes::Satellitesensorbackground2 => 100214,
    VariableRecordTypes::ScriptNumber => 100218,
    VariableRecordTypes::EntityTrackUpdateData => 100300,
    VariableRecordTypes::LocalForceTraining => 100400,
    VariableRecordTypes::EntityTrackIdentityData => 100500,
    VariableRecordTypes::EntityforTrackEvent => 100510,
    VariableRecordTypes::IFFstatus => 100520,
    VariableRecordTypes::EngagementData => 100600,
    VariableRecordTypes::TargetLatitude => 100610,
    VariableRecordTypes::TargetLongitude => 100620,
    VariableRecordTypes::AreaofInterestCenterLatitude => 100631,
    VariableRecordTypes::AreaofInterestCenterLongitude => 100632,
    VariableRecordTypes::AreaofInterestRadius => 100633,
    VariableRecordTypes::AreaofInterestType => 100634,
    VariableRecordTypes::TargetAggregateID => 100640,
    VariableRecordTypes::GICIdentificationNumber => 100650,
    VariableRecordTypes::EstimatedTimeofFlighttoTBMImpact => 100660,
    VariableRecordTypes::EstimatedInterceptTime => 100661,
    VariableRecordTypes::EstimatedTimeofFlighttoNextWaypoint => 100662,
    VariableRecordTypes::EntityTrackEquipmentData => 100700,
    VariableRecordTypes::EmissionEWData => 100800,
    VariableRecordTypes::AppearanceData => 100900,
    VariableRecordTypes::CommandOrderData => 101000,
    VariableRecordTypes::EnvironmentalData => 101100,
    VariableRecordTypes::SignificantEventData => 101200,
    VariableRecordTypes::OperatorActionData => 101300,
    VariableRecordTypes::ADAEngagementMode => 101310,
    VariableRecordTypes::ADAShootingStatus => 101320,
    VariableRecordTypes::ADAMode => 101321,
    VariableRecordTypes::ADARadarStatus => 101330,
    VariableRecordTypes::ShootCommand => 101340,
    VariableRecordTypes::ADAWeaponStatus => 101350,
    VariableRecordTypes::ADAFiringDisciple => 101360,
    VariableRecordTypes::OrderStatus => 101370,
    VariableRecordTypes::TimeSynchronization => 101400,
    VariableRecordTypes::TomahawkData => 101500,
    VariableRecordTypes::NumberofDetonations => 102100,
    VariableRecordTypes::NumberofIntercepts => 102200,
    VariableRecordTypes::OBTControlMT201 => 200201,
    VariableRecordTypes::SensorDataMT202 => 200202,
    VariableRecordTypes::EnvironmentalDataMT203 => 200203,
    VariableRecordTypes::OwnshipDataMT204 => 200204,
    VariableRecordTypes::AcousticContactDataMT205 => 200205,
    VariableRecordTypes::SonobuoyDataMT207 => 200207,
    VariableRecordTypes::SonobuoyContactDataMT210 => 200210,
    VariableRecordTypes::HeloControlMT211 => 200211,
    VariableRecordTypes::ESMControlData => 200213,
    VariableRecordTypes::ESMContactDataMT214 => 200214,
    VariableRecordTypes::ESMEmitterDataMT215 => 200215,
    VariableRecordTypes::WeaponDefinitionDataMT217 => 200216,
    VariableRecordTypes::WeaponPresetDataMT217 => 200217,
    VariableRecordTypes::OBTControlMT301 => 200301,
    VariableRecordTypes::SensorDataMT302 => 200302,
    VariableRecordTypes::EnvironmentalDataMT303m => 200303,
    VariableRecordTypes::OwnshipDataMT304 => 200304,
    VariableRecordTypes::AcousticContactDataMT305 => 200305,
    VariableRecordTypes::SonobuoyDataMT307 => 200307,
    VariableRecordTypes::SonobuoyContactDataMT310 => 200310,
    VariableRecordTypes::HeloScenarioEquipmentStatus => 200311,
    VariableRecordTypes::ESMControlDataMT313 => 200313,
    VariableRecordTypes::ESMContactDataMT314 => 200314,
    VariableRecordTypes::ESMEmitterDataMT315 => 200315,
    VariableRecordTypes::WeaponDefinitionDataMT316 => 200316,
    VariableRecordTypes::WeaponPresetDataMT317 => 200317,
    VariableRecordTypes::PairingAssociation => 200400,
    VariableRecordTypes::Pointer => 200401,
    VariableRecordTypes::ReportingResponsibility => 200402,
    VariableRecordTypes::TrackNumber => 200403,
    VariableRecordTypes::IDforLink11Reporting => 200404,
    VariableRecordTypes::RemoteTrack => 200405,
    VariableRecordTypes::Link11ErrorRate => 200406,
    VariableRecordTypes::TrackQuality => 200407,
    VariableRecordTypes::Gridlock => 200408,
    VariableRecordTypes::Kill => 200409,
    VariableRecordTypes::TrackIDChangeResolution => 200410,
    VariableRecordTypes::WeaponsStatus => 200411,
    VariableRecordTypes::Link11Operator => 200412,
    VariableRecordTypes::ForceTrainingTransmit => 200413,
    VariableRecordTypes::ForceTrainingReceive => 200414,
    VariableRecordTypes::InterceptorAmplification1 => 200415,
    VariableRecordTypes::Consumables1 => 200416,
    VariableRecordTypes::Link11LocalTrackQuality => 200417,
    VariableRecordTypes::DLRP => 200418,
    VariableRecordTypes::ForceOrder => 200419,
    VariableRecordTypes::WilcoCantco => 200420,
    VariableRecordTypes::EMCBearing => 200421,
    VariableRecordTypes::ChangeTrackEligibility => 200422,
    VariableRecordTypes::LandMassReferencePoint => 200423,
    VariableRecordTypes::SystemReferencePoint => 200424,
    VariableRecordTypes::PUAmplification => 200425,
    VariableRecordTypes::SetDrift => 200426,
    VariableRecordTypes::BeginInitialization => 200427,
    VariableRecordTypes::StatusandControl => 200428,
    VariableRecordTypes::ScintillationChange => 200429,
    VariableRecordTypes::Link11IDControl => 200430,
    VariableRecordTypes::PUGuardList => 200431,
    VariableRecordTypes::WindsAloft => 200432,
    VariableRecordTypes::SurfaceWinds => 200433,
    VariableRecordTypes::SeaState => 200434,
    VariableRecordTypes::MagneticVariation => 200435,
    VariableRecordTypes::TrackEligibility => 200436,
    VariableRecordTypes::TrainingTrackNotification => 200437,
    VariableRecordTypes::TacanData => 200501,
    VariableRecordTypes::InterceptorAmplification2 => 200502,
    VariableRecordTypes::TacanAssignment => 200503,
    VariableRecordTypes::AutopilotStatus => 200504,
    VariableRecordTypes::Consumables2 => 200505,
    VariableRecordTypes::Downlink => 200506,
    VariableRecordTypes::TINReport => 200507,
    VariableRecordTypes::SpecialPointControl => 200508,
    VariableRecordTypes::ControlDiscretes => 200509,
    VariableRecordTypes::RequestTargetDiscretes => 200510,
    VariableRecordTypes::TargetDiscretes => 200511,
    VariableRecordTypes::ReplyDiscretes => 200512,
    VariableRecordTypes::CommandManeuvers => 200513,
    VariableRecordTypes::TargetData => 200514,
    VariableRecordTypes::TargetPointer => 200515,
    VariableRecordTypes::InterceptData => 200516,
    VariableRecordTypes::DecrementMissileInventory => 200517,
    VariableRecordTypes::Link4AAlert => 200518,
    VariableRecordTypes::StrikeControl => 200519,
    VariableRecordTypes::SpeedChange => 200521,
    VariableRecordTypes::CourseChange => 200522,
    VariableRecordTypes::AltitudeChange => 200523,
    VariableRecordTypes::ACLSANSPN46Status => 200524,
    VariableRecordTypes::ACLSAircraftReport => 200525,
    VariableRecordTypes::SPS67RadarOperatorFunctions => 200600,
    VariableRecordTypes::SPS55RadarOperatorFunctions => 200601,
    VariableRecordTypes::SPQ9ARadarOperatorFunctions => 200602,
    VariableRecordTypes::SPS49RadarOperatorFunctions => 200603,
    VariableRecordTypes::MK23RadarOperatorFunctions => 200604,
    VariableRecordTypes::SPS48RadarOperatorFunctions => 200605,
    VariableRecordTypes::SPS40RadarOperatorFunctions => 200606,
    VariableRecordTypes::MK95RadarOperatorFunctions => 200607,
    VariableRecordTypes::KillNoKill => 200608,
    VariableRecordTypes::CMTpc => 200609,
    VariableRecordTypes::CMC4AirGlobalData => 200610,
    VariableRecordTypes::CMC4GlobalData => 200611,
    VariableRecordTypes::LINKSIMCOMMENTPDU => 200612,
    VariableRecordTypes::NSSTOwnshipControl => 200613,
    VariableRecordTypes::Other => 240000,
    VariableRecordTypes::MassOfTheVehicle => 240001,
    VariableRecordTypes::ForceID3 => 240002,
    VariableRecordTypes::EntityTypeKind => 240003,
    VariableRecordTypes::EntityTypeDomain => 240004,
    VariableRecordTypes::EntityTypeCountry => 240005,
    VariableRecordTypes::EntityTypeCategory => 240006,
    VariableRecordTypes::EntityTypeSubCategory => 240007,
    VariableRecordTypes::EntityTypeSpecific => 240008,
    VariableRecordTypes::EntityTypeExtra => 240009,
    VariableRecordTypes::AlternativeEntityTypeKind => 240010,
    VariableRecordTypes::AlternativeEntityTypeDomain => 240011,
    VariableRecordTypes::AlternativeEntityTypeCountry => 240012,
    VariableRecordTypes::AlternativeEntityTypeCategory => 240013,
    VariableRecordTypes::AlternativeEntityTypeSubCategory => 240014,
    VariableRecordTypes::AlternativeEntityTypeSpecific => 240015,
    VariableRecordTypes::AlternativeEntityTypeExtra => 240016,
    VariableRecordTypes::EntityLocationX => 240017,
    VariableRecordTypes::EntityLocationY => 240018,
    VariableRecordTypes::EntityLocationZ => 240019,
    VariableRecordTypes::EntityLinearVelocityX => 240020,
    VariableRecordTypes::EntityLinearVelocityY => 240021,
    VariableRecordTypes::EntityLinearVelocityZ => 240022,
    VariableRecordTypes::EntityOrientationPsi => 240023,
    VariableRecordTypes::EntityOrientationTheta => 240024,
    VariableRecordTypes::EntityOrientationPhi => 240025,
    VariableRecordTypes::DeadReckoningAlgorithm2 => 240026,
    VariableRecordTypes::DeadReckoningLinearAccelerationX => 240027,
    VariableRecordTypes::DeadReckoningLinearAccelerationY => 240028,
    VariableRecordTypes::DeadReckoningLinearAccelerationZ => 240029,
    VariableRecordTypes::DeadReckoningAngularVelocityX => 240030,
    VariableRecordTypes::DeadReckoningAngularVelocityY => 240031,
    VariableRecordTypes::DeadReckoningAngularVelocityZ => 240032,
    VariableRecordTypes::EntityAppearance => 240033,
    VariableRecordTypes::EntityMarkingCharacterSet => 240034,
    VariableRecordTypes::EntityMarking11Bytes => 240035,
    VariableRecordTypes::Capability => 240036,
    VariableRecordTypes::NumberArticulationParameters => 240037,
    VariableRecordTypes::ArticulationParameterID => 240038,
    VariableRecordTypes::ArticulationParameterType2 => 240039,
    VariableRecordTypes::ArticulationParameterValue2 => 240040,
    VariableRecordTypes::TypeOfStores => 240041,
    VariableRecordTypes::QuantityOfStores => 240042,
    VariableRecordTypes::FuelQuantity => 240043,
    VariableRecordTypes::RadarSystemStatus => 240044,
    VariableRecordTypes::RadioCommunicationSystemStatus => 240045,
    VariableRecordTypes::DefaultTimeForRadioTransmissionForStationaryTransmitters => 240046,
    VariableRecordTypes::DefaultTimeForRadioTransmissionForMovingTransmitters => 240047,
    VariableRecordTypes::BodyPartDamagedRatio => 240048,
    VariableRecordTypes::NameOfTheTerrainDatabaseFile => 240049,
    VariableRecordTypes::NameOfLocalFile => 240050,
    VariableRecordTypes::AimpointBearing => 240051,
    VariableRecordTypes::AimpointElevation => 240052,
    VariableRecordTypes::AimpointRange => 240053,
    VariableRecordTypes::AirSpeed => 240054,
    VariableRecordTypes::Altitude => 240055,
    VariableRecordTypes::ApplicationStatus => 240056,
    VariableRecordTypes::AutoIff => 240057,
    VariableRecordTypes::BeaconDelay => 240058,
    VariableRecordTypes::BingoFuelSetting => 240059,
    VariableRecordTypes::CloudBottom => 240060,
    VariableRecordTypes::CloudTop => 240061,
    VariableRecordTypes::Direction => 240062,
    VariableRecordTypes::EndAction => 240063,
    VariableRecordTypes::Frequency => 240064,
    VariableRecordTypes::Freeze => 240065,
    VariableRecordTypes::Heading => 240066,
    VariableRecordTypes::Identification2 => 240067,
    VariableRecordTypes::InitialPointData => 240068,
    VariableRecordTypes::Latitude2 => 240069,
    VariableRecordTypes::Lights2 => 240070,
    VariableRecordTypes::Linear => 240071,
    VariableRecordTypes::Longitude2 => 240072,
    VariableRecordTypes::LowAltitude => 240073,
    VariableRecordTypes::MfdFormats => 240074,
    VariableRecordTypes::Nctr => 240075,
    VariableRecordTypes::NumberProjectiles => 240076,
    VariableRecordTypes::OperationCode => 240077,
    VariableRecordTypes::Pitch => 240078,
    VariableRecordTypes::Profiles => 240079,
    VariableRecordTypes::Quantity3 => 240080,
    VariableRecordTypes::RadarModes => 240081,
    VariableRecordTypes::RadarSearchVolume => 240082,
    VariableRecordTypes::Roll => 240083,
    VariableRecordTypes::Rotation => 240084,
    VariableRecordTypes::ScaleFactorX => 240085,
    VariableRecordTypes::ScaleFactorY => 240086,
    VariableRecordTypes::Shields2 => 240087,
    VariableRecordTypes::Steerpoint => 240088,
    VariableRecordTypes::Spare1 => 240089,
    VariableRecordTypes::Spare2 => 240090,
    VariableRecordTypes::Team => 240091,
    VariableRecordTypes::Text => 240092,
    VariableRecordTypes::TimeOfDay => 240093,
    VariableRecordTypes::TrailFlag => 240094,
    VariableRecordTypes::TrailSize => 240095,
    VariableRecordTypes::TypeOfProjectile => 240096,
    VariableRecordTypes::TypeOfTarget => 240097,
    VariableRecordTypes::TypeOfThreat => 240098,
    VariableRecordTypes::UhfFrequency => 240099,
    VariableRecordTypes::UtmAltitude => 240100,
    VariableRecordTypes::UtmLatitude => 240101,
    VariableRecordTypes::UtmLongitude => 240102,
    VariableRecordTypes::VhfFrequency => 240103,
    VariableRecordTypes::VisibilityRange => 240104,
    VariableRecordTypes::VoidAaaHit => 240105,
    VariableRecordTypes::VoidCollision => 240106,
    VariableRecordTypes::VoidEarthHit => 240107,
    VariableRecordTypes::VoidFriendly => 240108,
    VariableRecordTypes::VoidGunHit => 240109,
    VariableRecordTypes::VoidRocketHit => 240110,
    VariableRecordTypes::VoidSamHit => 240111,
    VariableRecordTypes::WeaponData => 240112,
    VariableRecordTypes::WeaponType => 240113,
    VariableRecordTypes::Weather2 => 240114,
    VariableRecordTypes::WindDirection2 => 240115,
    VariableRecordTypes::WindSpeed => 240116,
    VariableRecordTypes::WingStation => 240117,
    VariableRecordTypes::Yaw => 240118,
    VariableRecordTypes::MemoryOffset => 240119,
    VariableRecordTypes::MemoryData => 240120,
    VariableRecordTypes::VASI => 240121,
    VariableRecordTypes::Beacon => 240122,
    VariableRecordTypes::Strobe => 240123,
    VariableRecordTypes::Culture => 240124,
    VariableRecordTypes::Approach => 240125,
    VariableRecordTypes::RunwayEnd => 240126,
    VariableRecordTypes::Obstruction => 240127,
    VariableRecordTypes::RunwayEdge => 240128,
    VariableRecordTypes::RampTaxiway => 240129,
    VariableRecordTypes::LaserBombCode => 240130,
    VariableRecordTypes::RackType => 240131,
    VariableRecordTypes::HUD => 240132,
    VariableRecordTypes::RoleFileName => 240133,
    VariableRecordTypes::PilotName => 240134,
    VariableRecordTypes::PilotDesignation => 240135,
    VariableRecordTypes::ModelType => 240136,
    VariableRecordTypes::DISType => 240137,
    VariableRecordTypes::Class => 240138,
    VariableRecordTypes::Channel => 240139,
    VariableRecordTypes::EntityType2 => 240140,
    VariableRecordTypes::AlternativeEntityType2 => 240141,
    VariableRecordTypes::EntityLocation => 240142,
    VariableRecordTypes::EntityLinearVelocity => 240143,
    VariableRecordTypes::EntityOrientation => 240144,
    VariableRecordTypes::DeadReckoning => 240145,
    VariableRecordTypes::FailureSymptom => 240146,
    VariableRecordTypes::MaxFuel => 240147,
    VariableRecordTypes::RefuelingBoomConnect => 240148,
    VariableRecordTypes::AltitudeAGL => 240149,
    VariableRecordTypes::CalibratedAirspeed => 240150,
    VariableRecordTypes::TACANChannel1 => 240151,
    VariableRecordTypes::TACANBand1 => 240152,
    VariableRecordTypes::TACANMode1 => 240153,
    VariableRecordTypes::FuelFlowRate => 270115,
    VariableRecordTypes::FuelTemperature => 270116,
    VariableRecordTypes::FuelPressure => 270117,
    VariableRecordTypes::SKESlot => 270150,
    VariableRecordTypes::SKELead => 270151,
    VariableRecordTypes::SKEFrequency => 270152,
    VariableRecordTypes::FCICmd => 270153,
    VariableRecordTypes::FCINum => 270154,
    VariableRecordTypes::SKEBitField => 270155,
    VariableRecordTypes::FormationPosition => 270156,
    VariableRecordTypes::FormationNumber => 270157,
    VariableRecordTypes::FFSModeActive => 270158,
    VariableRecordTypes::FFSRole => 270159,
    VariableRecordTypes::FFSVCAS => 270160,
    VariableRecordTypes::FFSBitField => 270161,
    VariableRecordTypes::FFSCallSign => 270162,
    VariableRecordTypes::FFSGuidanceData => 270163,
    VariableRecordTypes::FFSTextData => 270164,
    VariableRecordTypes::FFSAirdropRequestData => 270165,
    VariableRecordTypes::FFSAirdropData => 270166,
    VariableRecordTypes::HorizontalCircularErrorProbable => 300000,
    VariableRecordTypes::HorizontalPositionError => 300001,
    VariableRecordTypes::VerticalPositionError => 300002,
    VariableRecordTypes::HorizontalVelocityError => 300003,
    VariableRecordTypes::VerticalVelocityError => 300004,
    VariableRecordTypes::_4thLowestJammertoSignalRatioforP1 => 300005,
    VariableRecordTypes::_4thLowestJammertoSignalRatioforP2 => 300006,
    VariableRecordTypes::GPSFigureofMerit => 300007,
    VariableRecordTypes::WeaponTransferGPSState => 300008,
    VariableRecordTypes::WeaponTransferHorizontalPositionError => 300009,
    VariableRecordTypes::WeaponTransferVerticalPositionError1 => 300010,
    VariableRecordTypes::WeaponTransferVerticalPositionError2 => 300011,
    VariableRecordTypes::WeaponTransferHorizontalVelocityError => 300012,
    VariableRecordTypes::TimeTransferError => 300013,
    VariableRecordTypes::AgeofEphemeris => 300014,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestDISTypeEnumeration => 300016,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointX => 300017,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointY => 300018,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchPointZ => 300019,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestMaximumAltitude => 300020,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestFlightPath => 300021,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointX => 300022,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointY => 300023,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestImpactPointZ => 300024,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestElapsedFlightTime => 300025,
    VariableRecordTypes::NonFlyoutMunitionEntityRequestLaunchTime => 300026,
    VariableRecordTypes::TimeError => 300027,
    VariableRecordTypes::Link16CommandVariety1 => 301100,
    VariableRecordTypes::Push => 301130,
    VariableRecordTypes::Rolex => 301140,
    VariableRecordTypes::TerminateIntercept => 301150,
    VariableRecordTypes::HealDamage => 301151,
    VariableRecordTypes::Destroy => 301152,
    VariableRecordTypes::TransferControlManagement => 301160,
    VariableRecordTypes::Link16ControlsPPLIEnable => 301170,
    VariableRecordTypes::Link16ControlsCommandControlEnable => 301171,
    VariableRecordTypes::Link16ReferencePointMessageInitiation => 301174,
    VariableRecordTypes::AssignExternalEntityLink16TrackNumber => 301175,
    VariableRecordTypes::Link16IntelligenceInfo => 301176,
    VariableRecordTypes::Link16TrackManagement => 301177,
    VariableRecordTypes::Link16ControlsCESGlobalPPLIPublish => 301178,
    VariableRecordTypes::Link16ControlsCESGlobalSurveillancePublish => 301179,
    VariableRecordTypes::RequestGlobalLink16Configuration => 301180,
    VariableRecordTypes::Link16ControlsSurveillanceEnable => 301181,
    VariableRecordTypes::Link16Pointer => 301182,
    VariableRecordTypes::Link16Vector => 301183,
    VariableRecordTypes::Link16ControlUnitChange => 301184,
    VariableRecordTypes::Link16Text => 301185,
    VariableRecordTypes::RequestLink16Objects => 301186,
    VariableRecordTypes::Link16RefObjectNameList => 301187,
    VariableRecordTypes::TotalNumberofPDUsinLink16RefObjectsResponse => 301189,
    VariableRecordTypes::PDUNumberinLink16RefObjectsResponse => 301190,
    VariableRecordTypes::TotalNumberofLink16RefObjects => 301191,
    VariableRecordTypes::Link16ControlsF2FAEnable => 301197,
    VariableRecordTypes::Link16ControlsF2FBEnable => 301198,
    VariableRecordTypes::STNofFormationLeader => 301199,
    VariableRecordTypes::FormationName => 301200,
    VariableRecordTypes::FormationRole => 301201,
    VariableRecordTypes::SurveillanceContributorSensorBasedDetection => 301202,
    VariableRecordTypes::F2FANPG => 301220,
    VariableRecordTypes::Link16ControlsF2FANet => 301221,
    VariableRecordTypes::F2FBNPG => 301222,
    VariableRecordTypes::Link16ControlsF2FBNet => 301223,
    VariableRecordTypes::SurveillanceEnabledNPB => 301224,
    VariableRecordTypes::SurveillanceEnabledNet => 301225,
    VariableRecordTypes::ControlUnitEnabled => 301226,
    VariableRecordTypes::ControlUnitEnabledNPG => 301227,
    VariableRecordTypes::ControlUnitEnabledNet => 301228,
    VariableRecordTypes::VoiceFrequency => 301229,
    VariableRecordTypes::Link16JTIDSVoiceCallsign => 301234,
    VariableRecordTypes::EntityIDofControlUnit => 301237,
    VariableRecordTypes::STNofControlUnit => 301238,
    VariableRecordTypes::NTRParticipationLevel => 301239,
    VariableRecordTypes::Link16ControlsCESGlobalPPLISubscribe => 301240,
    VariableRecordTypes::Link16ControlsCESGlobalSurveillanceSubscribe => 301241,
    VariableRecordTypes::NTRinMission => 301242,
    VariableRecordTypes::NTRMarking => 301243,
    VariableRecordTypes::NTRReceiptCompliance => 301244,
    VariableRecordTypes::FormationF2FNPG => 301255,
    VariableRecordTypes::FormationF2FChannel => 301256,
    VariableRecordTypes::JLVCLogReport => 400008,
    VariableRecordTypes::JLVCSupplyAdjust => 400009,
    VariableRecordTypes::JLVCEntityControl => 400010,
    VariableRecordTypes::JLVCHealthUpdate => 400011,
    VariableRecordTypes::JLVCRepairComplete => 400012,
    VariableRecordTypes::JLVCUnitActivation => 400013,
    VariableRecordTypes::JLVCBattleDamageRepair => 400014,
    VariableRecordTypes::JLVCMinefield => 400015,
    VariableRecordTypes::JLVCWire => 400016,
    VariableRecordTypes::JLVCAbatis => 400017,
    VariableRecordTypes::JLVCCrater => 400018,
    VariableRecordTypes::JLVCDitch => 400019,
    VariableRecordTypes::JLVCLanes => 400020,
    VariableRecordTypes::JLVCIED => 400021,
    VariableRecordTypes::JLVCRubble => 400022,
    VariableRecordTypes::JLVCSubmergedBarrier => 400023,
    VariableRecordTypes::JLVCFloatingBarrier => 400024,
    VariableRecordTypes::JLVCFoxhole => 400025,
    VariableRecordTypes::JLVCVehicleHole => 400026,
    VariableRecordTypes::JLVCVehicleFortification => 400027,
    VariableRecordTypes::JLVCSandbag => 400028,
    VariableRecordTypes::JLVCCheckpoint => 400029,
    VariableRecordTypes::JLVCContamCloud2D => 400030,
    VariableRecordTypes::JLVCPopulationEffect => 400031,
    VariableRecordTypes::JLVCMine => 400032,
    VariableRecordTypes::JLVCSeaMinefield => 400033,
    VariableRecordTypes::Munition => 500001,
    VariableRecordTypes::EngineFuel => 500002,
    VariableRecordTypes::StorageFuel => 500003,
    VariableRecordTypes::NotUsed => 500004,
    VariableRecordTypes::Expendable => 500005,
    VariableRecordTypes::TotalRecordSets => 500006,
    VariableRecordTypes::LaunchedMunition => 500007,
    VariableRecordTypes::Association => 500008,
    VariableRecordTypes::Sensor => 500009,
    VariableRecordTypes::MunitionReload => 500010,
    VariableRecordTypes::EngineFuelReload => 500011,
    VariableRecordTypes::StorageFuelReload => 500012,
    VariableRecordTypes::ExpendableReload => 500013,
    VariableRecordTypes::IFFChangeControlMode1Code => 500014,
    VariableRecordTypes::IFFChangeControlMode2Code => 500015,
    VariableRecordTypes::IFFChangeControlMode3Code => 500016,
    VariableRecordTypes::IFFChangeControlMode4Code => 500017,
    VariableRecordTypes::IFFChangeControlMode5Code => 500018,
    VariableRecordTypes::IFFChangeControlMode6Code => 500019,
    VariableRecordTypes::Link16Data => 500021,
    VariableRecordTypes::ARMAlert => 500022,
    VariableRecordTypes::IFFChangeControlModeOnOff => 500023,
    VariableRecordTypes::WeaponStatusData => 500024,
    VariableRecordTypes::ExpendableStatusData => 500025,
    VariableRecordTypes::TacticStatusData => 500026,
    VariableRecordTypes::EmitterSensorData => 500027,
    VariableRecordTypes::IOSControlData => 500028,
    VariableRecordTypes::StaticStatusData => 500029,
    VariableRecordTypes::RequestInactiveEntities => 500200,
    VariableRecordTypes::InactiveEntityQuantity => 500201,
    VariableRecordTypes::InactiveEntityID => 500202,
    VariableRecordTypes::InactiveEntityType => 500203,
    VariableRecordTypes::ActivationTriggerType => 500204,
    VariableRecordTypes::ActivationTriggerValue => 500205,
    VariableRecordTypes::AirtoAirMissileQty => 551001,
    VariableRecordTypes::AIM7MissileQty => 551002,
    VariableRecordTypes::AIM9MissileQty => 551003,
    VariableRecordTypes::AIM120MissileQty => 551004,
    VariableRecordTypes::AirtoGroundMissileQty => 551005,
    VariableRecordTypes::SurfacetoAirMissileQty => 551006,
    VariableRecordTypes::BulletQty1 => 551007,
    VariableRecordTypes::ChaffQty => 552001,
    VariableRecordTypes::FlareQty => 552002,
    VariableRecordTypes::FuelLevel => 553001,
    VariableRecordTypes::RouteType => 553002,
    VariableRecordTypes::ThreatMode => 553003,
    VariableRecordTypes::TargetOccluded => 553004,
    VariableRecordTypes::TerrainHeight => 553005,
    VariableRecordTypes::EntityStatus => 553006,
    VariableRecordTypes::MarshalStatus => 553007,
    VariableRecordTypes::PowerPlantStatus => 553008,
    VariableRecordTypes::NavLightStatus => 553009,
    VariableRecordTypes::InteriorLightStatus => 553010,
    VariableRecordTypes::LandingLightStatus => 553011,
    VariableRecordTypes::FormationLightStatus => 553012,
    VariableRecordTypes::AntiCollisionLightStatus => 553013,
    VariableRecordTypes::NavFormationFlashRate => 553014,
    VariableRecordTypes::AntiColOnDuration => 553015,
    VariableRecordTypes::AntiColOffDuration => 553016,
    VariableRecordTypes::InterceptStatus => 553017,
    VariableRecordTypes::LifeFormSignalingDeviceType => 553018,
    VariableRecordTypes::LifeFormMovementType => 553019,
    VariableRecordTypes::LifeFormInVehicle => 553020,
    VariableRecordTypes::MobilityKill2 => 553021,
    VariableRecordTypes::FirepowerKill => 553022,
    VariableRecordTypes::TankerEnabledDisabled => 553028,
    VariableRecordTypes::ThreatStatusTacticOKtoShootDownWeapons => 553029,
    VariableRecordTypes::TACANChannel2 => 554001,
    VariableRecordTypes::TACANBand2 => 554002,
    VariableRecordTypes::TACANMode2 => 554003,
    VariableRecordTypes::RWRStatus => 554004,
    VariableRecordTypes::UHFRadioFrequency => 554005,
    VariableRecordTypes::EmitJammingStatus => 554006,
    VariableRecordTypes::EmitJammingType => 554007,
    VariableRecordTypes::ReceiveJammingStatus => 554008,
    VariableRecordTypes::RADARMode => 554009,
    VariableRecordTypes::AvailableRADARModes => 554010,
    VariableRecordTypes::JammerPodEnumeration => 554100,
    VariableRecordTypes::JammerPodBehavior => 554101,
    VariableRecordTypes::JammerPodPrograms => 554102,
    VariableRecordTypes::JammerPodReceiverSensitivity => 554103,
    VariableRecordTypes::JammerPodReceiverFrequencyMinimum => 554104,
    VariableRecordTypes::JammerPodReceiverFrequencyMaximum => 554105,
    VariableRecordTypes::JammerPodPower => 554106,
    VariableRecordTypes::JammerPodVariability => 554107,
    VariableRecordTypes::JammerPodNumberofFalseTargets => 554108,
    VariableRecordTypes::JammerPodJammerKnob => 554109,
    VariableRecordTypes::JammerPodMissileJamming => 554110,
    VariableRecordTypes::EmitterOverride2 => 555001,
    VariableRecordTypes::JammerOverride => 555002,
    VariableRecordTypes::DisengageReengage2 => 555003,
    VariableRecordTypes::HeadingOverride => 555004,
    VariableRecordTypes::AltitudeOverride => 555005,
    VariableRecordTypes::SpeedOverride => 555006,
    VariableRecordTypes::VerboseOverride => 555007,
    VariableRecordTypes::OcclusionOverride => 555008,
    VariableRecordTypes::CommitRange => 556001,
    VariableRecordTypes::CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation => 556007,
    VariableRecordTypes::CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation => 556008,
    VariableRecordTypes::OktoEngageWaypointNumber => 556016,
    VariableRecordTypes::MaxSpeedatSeaLevel => 556017,
    VariableRecordTypes::MaxSpeed => 556018,
    VariableRecordTypes::CurrentWaypointNumber => 556019,
    VariableRecordTypes::RouteInformation => 556020,
    VariableRecordTypes::ThreatStatusStaticMultiTargetTrack => 556029,
    VariableRecordTypes::AirAirIRMissileQty => 557001,
    VariableRecordTypes::AirAirRadarMissileQty => 557002,
    VariableRecordTypes::AirGroundIRMissileQty => 557003,
    VariableRecordTypes::AirGroundRadarMissileQty => 557004,
    VariableRecordTypes::AirGroundAntiRadiationMissileQty => 557005,
    VariableRecordTypes::AirGroundBombQty => 557006,
    VariableRecordTypes::AirGroundRocketQty => 557007,
    VariableRecordTypes::SurfaceAirIRMissileQty => 557008,
    VariableRecordTypes::SurfaceAirRadarMissileQty => 557009,
    VariableRecordTypes::BulletQty2 => 557010,
    VariableRecordTypes::PPLIPublishEnabled => 559001,
    VariableRecordTypes::SurveillancePublishEnabled => 559002,
    VariableRecordTypes::NPG => 559003,
    VariableRecordTypes::NPGChannel => 559004,
    VariableRecordTypes::JTIDSTrackNumber => 559005,
    VariableRecordTypes::Link16ControlsSurveillanceReportable => 559006,
    VariableRecordTypes::Link16ControlsSurveillanceTrackQuality => 559007,
    VariableRecordTypes::Link16ControlsTargetPositionQuality => 559008,
    VariableRecordTypes::Link16ControlsQualityErrorType => 559009,
    VariableRecordTypes::Link16ControlsAffiliationDeterminationRule => 559010,
    VariableRecordTypes::Link16ControlsResetEntityAffiliation => 559011,
    VariableRecordTypes::Link16ControlsResetAllAffiliation => 559012,
    VariableRecordTypes::EndofMessages => 559999,
    VariableRecordTypes::MalfunctionActivateDeactivateSet => 600001,
    VariableRecordTypes::MalfunctionStatus => 600002,
    VariableRecordTypes::RequestJTIDSTrackNumbers => 600210,
    VariableRecordTypes::TrackNumbersvsEID => 600212,
    VariableRecordTypes::TotalNumberofJTIDSTrackNumbers => 600214,
    VariableRecordTypes::PDUNumberinJTIDSTrackNumberResponse => 600215,
    VariableRecordTypes::TotalNumberofPDUsinJTIDSTrackNumberResponse => 600216,
    VariableRecordTypes::AirtoAirRefuelerEntitiesRequest => 600218,
    VariableRecordTypes::AirtoAirRefuelingCount => 600219,
    VariableRecordTypes::AirToAirRefuelerEntity => 600220,
    VariableRecordTypes::FormationLibraryRequest => 600300,
    VariableRecordTypes::TotalNumberFormationLibraryPDUs1 => 600301,
    VariableRecordTypes::PDUNumberinFormationLibraryResponse1 => 600302,
    VariableRecordTypes::TotalNumberFormationLibraryItemsinPDU => 600303,
    VariableRecordTypes::FormationLibraryVariable => 600304,
    VariableRecordTypes::CreateRuntimeFormation => 600305,
    VariableRecordTypes::FormationRequestHeader => 600306,
    VariableRecordTypes::FormationPositionAbsolute => 600307,
    VariableRecordTypes::FormationPositionRelative => 600308,
    VariableRecordTypes::ExpendablesReload => 610006,
    VariableRecordTypes::PositionFreeze => 610007,
    VariableRecordTypes::ActivateOwnship => 610008,
    VariableRecordTypes::Chocks => 610009,
    VariableRecordTypes::WarmupCooldownOverride => 610010,
    VariableRecordTypes::GroundPower => 610011,
    VariableRecordTypes::ScrambleStart => 610012,
    VariableRecordTypes::OwnshipasaThreat => 610013,
    VariableRecordTypes::FuelExternal => 610015,
    VariableRecordTypes::FuelInternal => 610016,
    VariableRecordTypes::FuelTankTemp => 610017,
    VariableRecordTypes::GrossWeight => 610025,
    VariableRecordTypes::AngleOfAttack => 610026,
    VariableRecordTypes::GLoad => 610027,
    VariableRecordTypes::WeightOnWheels => 610029,
    VariableRecordTypes::StoredEnergySystemReload => 610032,
    VariableRecordTypes::KillOverride => 610035,
    VariableRecordTypes::ExpendablesFreeze => 610036,
    VariableRecordTypes::GPSSatellitesEnableDisable => 610037,
    VariableRecordTypes::OwnshipMessageDisplay => 610040,
    VariableRecordTypes::WeaponQuantityFreeze => 610042,
    VariableRecordTypes::GlobalControlFreezeWeaponsQuantityOnAllOwnships => 610043,
    VariableRecordTypes::GlobalControlFreezeFuelQuantityOnAllOwnships => 610044,
    VariableRecordTypes::GlobalControlFreezeKillOverrideOnAllOwnships => 610045,
    VariableRecordTypes::GlobalControlFreezeCrashOverrideOnAllOwnships => 610046,
    VariableRecordTypes::OwnshipOFPBlockNumber => 610047,
    VariableRecordTypes::WaypointInformationQuery => 610048,
    VariableRecordTypes::WaypointInformation => 610049,
    VariableRecordTypes::OwnshipSubsystemStatusData => 610050,
    VariableRecordTypes::CockpitSwitchStatus => 613002,
    VariableRecordTypes::IntegratedControlPanelMessages => 613003,
    VariableRecordTypes::ThrottlePositions => 613004,
    VariableRecordTypes::CurrentCriticalSwitchPosition => 613005,
    VariableRecordTypes::CorrectCriticalSwitchPosition => 613006,
    VariableRecordTypes::CurrentCriticalSwitchData => 613007,
    VariableRecordTypes::CorrectCriticalSwitchData => 613008,
    VariableRecordTypes::MissionInitialConditionsSet => 613013,
    VariableRecordTypes::GlobalControlMalfunctionActiveonAllOwnships => 613016,
    VariableRecordTypes::GlobalControlMalfunctionClearOnAllOwnships => 613017,
    VariableRecordTypes::ValidatedCriticalSwitchReport => 613020,
    VariableRecordTypes::SARMapPathname => 613021,
    VariableRecordTypes::ValidatedCriticalSwitchOwnshipID => 613022,
    VariableRecordTypes::LowerBoomEventReport => 613027,
    VariableRecordTypes::RaiseBoomEventReport => 613028,
    VariableRecordTypes::BreakawayEventReport => 613029,
    VariableRecordTypes::CompleteEventReport => 613030,
    VariableRecordTypes::AuxCommPanelFrequencyDisplay => 613031,
    VariableRecordTypes::NetworkStationInformation => 615000,
    VariableRecordTypes::GlobalControlSelectNetworkStation => 615001,
    VariableRecordTypes::NetworkStationUnderGlobalControl => 615002,
    VariableRecordTypes::GlobalControlStillControlling => 615003,
    VariableRecordTypes::GlobalControlReleaseControlofNetworkStation => 615004,
    VariableRecordTypes::GlobalControlFreezeWeaponQuantity => 615005,
    VariableRecordTypes::GlobalControlFreezeFuelQuantity => 615006,
    VariableRecordTypes::GlobalControlFreezeKillOverride => 615007,
    VariableRecordTypes::GlobalControlFreezeCrashOverride => 615008,
    VariableRecordTypes::GlobalControlMalfunctionActive => 615009,
    VariableRecordTypes::GlobalControlMalfunctionClear => 615010,
    VariableRecordTypes::GlobalControlStartDevices => 615011,
    VariableRecordTypes::GlobalControlFreezeDevices => 615012,
    VariableRecordTypes::GlobalControlJTIDSCommand => 615013,
    VariableRecordTypes::NetworkStationICSetInformation => 615015,
    VariableRecordTypes::GlobalControlResetICSet => 615017,
    VariableRecordTypes::NumberofControllingUnits => 615018,
    VariableRecordTypes::NetworkStationJTIDSControllingUnits => 615019,
    VariableRecordTypes::NetworkStationJTIDSObjectiveTracks => 615020,
    VariableRecordTypes::NumberofReferenceObjects => 615021,
    VariableRecordTypes::NetworkStationJTIDSReferenceObjects => 615022,
    VariableRecordTypes::NetworkedStationStillUnderControl => 615023,
    VariableRecordTypes::GlobalControlDeleteThreatEntities => 615024,
    VariableRecordTypes::NetworkStationOwnshipCallsigns => 615025,
    VariableRecordTypes::GlobalControlRequestFormationLibraryData => 615026,
    VariableRecordTypes::TotalNumberFormationLibraryPDUs2 => 615027,
    VariableRecordTypes::PDUNumberinFormationLibraryResponse2 => 615028,
    VariableRecordTypes::TotalNumberFormationLibraryItemsinPDUs => 615029,
    VariableRecordTypes::NetworkStationFormationLibraryItem => 615030,
    VariableRecordTypes::GlobalControlAddRelativeFormation => 615031,
    VariableRecordTypes::NetworkStationTICFilename => 615032,
    VariableRecordTypes::GlobalControlFreezeWarmupOverride => 615033,
    VariableRecordTypes::GlobalControlReloadSES => 615034,
    VariableRecordTypes::GlobalControlReloadWeapons => 615035,
    VariableRecordTypes::GlobalControlReloadExpendables => 615036,
    VariableRecordTypes::GlobalControlReloadFuel => 615037,
    VariableRecordTypes::GlobalControlReloadFirebottle => 615038,
    VariableRecordTypes::TestPattern => 700000,
    VariableRecordTypes::AudioTest => 700001,
    VariableRecordTypes::AudioTone => 700002,
    VariableRecordTypes::CalibrateThrottles => 700003,
    VariableRecordTypes::OperationalLimitsEventReport => 700004,
    VariableRecordTypes::OperationalLimits => 700005,
    VariableRecordTypes::EventMarkerMessage => 1000620,
    VariableRecordTypes::ReceiverAircraftAeroModelData => 2000000,
    VariableRecordTypes::TankerAircraftAeroModelData => 2000010,
    VariableRecordTypes::BoomAircraftAeroModelData => 2000020,
    VariableRecordTypes::AccesstoImageGeneratorData1 => 2000030,
    VariableRecordTypes::AccesstoImageGeneratorData2 => 2000031,
    VariableRecordTypes::AccesstoImageGeneratorData3 => 2000032,
    VariableRecordTypes::AccesstoImageGeneratorData4 => 2000033,
    VariableRecordTypes::AccesstoImageGeneratorData5 => 2000034,
    VariableRecordTypes::AccesstoImageGeneratorData6 => 2000035,
    VariableRecordTypes::AccesstoImageGeneratorData7 => 2000036,
    VariableRecordTypes::AccesstoImageGeneratorData8 => 2000037,
    VariableRecordTypes::AccesstoImageGeneratorData9 => 2000038,
    VariableRecordTypes::AccesstoImageGeneratorData10 => 2000039,
    VariableRecordTypes::AccesstoImageGeneratorData11 => 2000040,
    VariableRecordTypes::AccesstoImageGeneratorData12 => 2000041,
    VariableRecordTypes::AccesstoImageGeneratorData13 => 2000042,
    VariableRecordTypes::AccesstoImageGeneratorData14 => 2000043,
    VariableRecordTypes::AccesstoImageGeneratorData15 => 2000044,
    VariableRecordTypes::AccesstoImageGeneratorData16 => 2000045,
    VariableRecordTypes::HostLoadNumber => 2000050,
    VariableRecordTypes::ExtendedFireEventReports => 5005001,
    VariableRecordTypes::BattleDamageAssessmentEventReport => 5005002,
    VariableRecordTypes::ExtendedFireEventLauncher => 5005003,
    VariableRecordTypes::ExtendedFireEventMissile => 5005006,
    VariableRecordTypes::ExtendedFireEventMRMWeapon => 5005008,
    VariableRecordTypes::ExtendedFireEventGunFireControl => 5005009,
    VariableRecordTypes::ExtendedFireEventBomb => 5005010,
    VariableRecordTypes::ExtendedFireEventExpendable => 5005011,
    VariableRecordTypes::BattleDamageAssessment => 5005012,
    VariableRecordTypes::ExtendedFirePickleEvent => 5005014,
    VariableRecordTypes::RadarTrackReport => 5005055,
    VariableRecordTypes::JammerReport => 5005060,
    VariableRecordTypes::JammerFalseTargetsReport => 5005061,
    VariableRecordTypes::DetectEventReport => 5005063,
    VariableRecordTypes::MALDBeamReport => 5005070,
    VariableRecordTypes::TransmitterRadiationVolume => 5005080,
    VariableRecordTypes::TransmitterRadiationVolumev2 => 5005081,
    VariableRecordTypes::PhysicalNetworkDefinition => 5007010,
    VariableRecordTypes::NetworkChannelDefinition => 5007020,
    VariableRecordTypes::LogicalNetworkDefinition => 5007030,
    VariableRecordTypes::LogicalNetworkEntityDefinition => 5007040,
    VariableRecordTypes::PhysicalNetworkEntityDefinition => 5007050,
    VariableRecordTypes::C2Message => 5008010,
    VariableRecordTypes::CandidateObject => 5008020,
    VariableRecordTypes::SetofCandidateObjects => 5008030,
    VariableRecordTypes::BoundedRegion => 5008040,
    VariableRecordTypes::AngularRegion => 5008050,
    VariableRecordTypes::RoEObject => 5008060,
    VariableRecordTypes::TrackObject => 5008070,
    VariableRecordTypes::SetOfTrackObjects => 5008080,
    VariableRecordTypes::LogicalEntityDefinition => 5009010,
    VariableRecordTypes::LogicalEntityRelationshipDefinition => 5009020,
    VariableRecordTypes::IntentBasedEWMessage => 5507010,
    other => other as u32,
} }
impl Model for VariableRecordTypes {
    fn gen_(g: &mut Gen) -> Self { g.charge(4); *g.pick_enum(63, VARIABLERECORDTYPES_ALL, VARIABLERECORDTYPES_NUM) }
    fn enc(&self, e: &mut Enc) { e.enumv(variablerecordtypes_value(*self), 4, 63); }
}
pub static ENUM_INFO: &[EnumInfo] = &[
    EnumInfo { name: "AcknowledgeFlag", width: 2, default: 1, values: &[1, 2, 3, 4, 5] },
    EnumInfo { name: "AcknowledgeResponseFlag", width: 2, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "ActionResponseRequestStatus", width: 4, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 101, 201] },
    EnumInfo { name: "AggregateStateAggregateState", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5] },
    EnumInfo { name: "AggregateStateFormation", width: 4, default: 0, values: &[0, 1, 2, 3, 4, 5] },
    EnumInfo { name: "ComponentDamageStatus", width: 1, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "ComponentIdentification", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "ComponentVisualSmokeColor", width: 1, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "Country", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282] },
    EnumInfo { name: "DEFirePulseShape", width: 1, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "DISAttributeActionCode", width: 1, default: 0, values: &[0] },
    EnumInfo { name: "DISLiveEntitySubprotocolNumber", width: 1, default: 0, values: &[0] },
    EnumInfo { name: "DeadReckoningAlgorithm", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "DesignatorCode", width: 2, default: 0, values: &[0] },
    EnumInfo { name: "DesignatorSystemName", width: 2, default: 0, values: &[0, 1000, 1100, 1200, 1300, 1400, 1500, 1600, 1700, 1800, 1900, 2000, 2100, 2200, 2300, 2400, 2500, 2600, 2650, 2700, 2800, 2900, 3000, 3100, 3200, 3300, 3400, 3500, 3600, 3700, 4400, 4500, 4600, 4700, 4800, 4900, 5000, 5100, 5200, 5300, 5400, 5500, 5600, 5700, 5800, 6000, 6100, 6200, 6300, 6400, 6500, 6600, 6700, 6800, 6900, 7000, 7100, 7200, 7300, 7400, 7500, 7600, 7700, 7800, 7900, 8000, 8100, 8200, 8300, 8400, 8500, 8600, 8700, 8800, 8900, 9000, 9090, 9100, 9140, 9150, 9200, 9300, 9400, 9500, 9600, 9700, 9800, 9900, 10000, 10100, 10200, 10300, 10400, 10500, 10600, 10700, 10800, 10900, 11000, 11100, 11200, 11300, 11400] },
    EnumInfo { name: "DetonationResult", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33] },
    EnumInfo { name: "EEAttributeStateIndicator", width: 1, default: 0, values: &[0, 1, 2] },
    EnumInfo { name: "EmitterName", width: 2, default: 2, values: &[2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 25, 40, 42, 45, 46, 47, 48, 49, 50, 55, 57, 60, 63, 64, 65, 66, 70, 75, 76, 77, 80, 81, 90, 91, 125, 135, 180, 181, 183, 185, 190, 195, 196, 197, 198, 199, 200, 215, 225, 270, 315, 360, 405, 450, 495, 540, 585, 630, 675, 720, 765, 810, 855, 900, 945, 990, 1035, 1070, 1073, 1080, 1081, 1082, 1085, 1090, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1110, 1111, 1113, 1115, 1117, 1118, 1120, 1122, 1123, 1125, 1130, 1150, 1170, 1215, 1216, 1218, 1230, 1240, 1260, 1263, 1264, 1265, 1268, 1270, 1280, 1282, 1288, 1305, 1306, 1350, 1395, 1397, 1398, 1400, 1410, 1440, 1441, 1442, 1485, 1530, 1575, 1585, 1620, 1621, 1622, 1626, 1627, 1628, 1630, 1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641, 1642, 1643, 1644, 1645, 1646, 1647, 1648, 1649, 1650, 1651, 1652, 1653, 1654, 1655, 1656, 1657, 1658, 1659, 1660, 1661, 1662, 1663, 1664, 1665, 1670, 1672, 1680, 1700, 1710, 1755, 1800, 1805, 1807, 1809, 1845, 1870, 1871, 1872, 1880, 1890, 1895, 1935, 1940, 1945, 1960, 1970, 1971, 1972, 1974, 1975, 1976, 1980, 2025, 2070, 2115, 2160, 2205, 2220, 2250, 2295, 2320, 2340, 2385, 2430, 2475, 2476, 2520, 2565, 2610, 2655, 2700, 2745, 2746, 2747, 2748, 2790, 2835, 2880, 2925, 2970, 3015, 3060, 3105, 3106, 3120, 3121, 3122, 3148, 3150, 3152, 3153, 3154, 3155, 3156, 3157, 3158, 3159, 3160, 3161, 3162, 3164, 3166, 3170, 3195, 3240, 3285, 3330, 3375, 3376, 3420, 3465, 3510, 3512, 3555, 3600, 3645, 3690, 3700, 3735, 3770, 3780, 3785, 3788, 3790, 3791, 3794, 3795, 3800, 3810, 3813, 3820, 3825, 3870, 3915, 3916, 3920, 3922, 3958, 3960, 4005, 4050, 4095, 4140, 4185, 4190, 4230, 4275, 4320, 4365, 4410, 4413, 4415, 4420, 4425, 4455, 4460, 4464, 4465, 4466, 4467, 4468, 4475, 4476, 4480, 4482, 4485, 4486, 4489, 4490, 4491, 4500, 4545, 4590, 4635, 4680, 4681, 4725, 4770, 4815, 4816, 4860, 4870, 4900, 4905, 4950, 4952, 4953, 4954, 4955, 4995, 5040, 5085, 5130, 5131, 5165, 5175, 5220, 5265, 5266, 5270, 5280, 5285, 5290, 5300, 5310, 5320, 5325, 5355, 5400, 5401, 5402, 5405, 5406, 5410, 5415, 5420, 5430, 5445, 5490, 5491, 5493, 5494, 5495, 5500, 5502, 5503, 5504, 5505, 5506, 5507, 5508, 5509, 5510, 5511, 5512, 5513, 5514, 5515, 5516, 5520, 5521, 5522, 5525, 5526, 5527, 5528, 5529, 5530, 5535, 5537, 5538, 5539, 5540, 5541, 5545, 5550, 5551, 5555, 5556, 5560, 5565, 5567, 5570, 5571, 5575, 5576, 5577, 5578, 5579, 5580, 5582, 5583, 5584, 5620, 5625, 5670, 5690, 5700, 5705, 5710, 5715, 5760, 5761, 5805, 5850, 5895, 5940, 5985, 5995, 6015, 6025, 6030, 6050, 6075, 6076, 6078, 6085, 6120, 6155, 6165, 6166, 6190, 6210, 6255, 6300, 6345, 6390, 6435, 6480, 6525, 6570, 6615, 6660, 6705, 6750, 6752, 6795, 6796, 6797, 6798, 6799, 6800, 6801, 6802, 6803, 6804, 6840, 6885, 6930, 6945, 6970, 6975, 7020, 7025, 7065, 7110, 7119, 7120, 7155, 7175, 7200, 7201, 7210, 7215, 7216, 7225, 7226, 7230, 7245, 7250, 7252, 7253, 7260, 7261, 7265, 7266, 7267, 7268, 7269, 7270, 7271, 7272, 7273, 7274, 7275, 7276, 7277, 7278, 7279, 7280, 7281, 7295, 7300, 7301, 7302, 7303, 7305, 7310, 7311, 7312, 7313, 7314, 7315, 7316, 7317, 7320, 7321, 7322, 7323, 7324, 7325, 7326, 7327, 7328, 7329, 7330, 7331, 7333, 7334, 7335, 7340, 7345, 7380, 7425, 7426, 7427, 7470, 7515, 7560, 7605, 7650, 7695, 7700, 7740, 7750, 7751, 7752, 7753, 7754, 7755, 7760, 7761, 7762, 7765, 7770, 7780, 7785, 7830, 7875, 7920, 7965, 8010, 8055, 8100, 8102, 8103, 8105, 8112, 8113, 8114, 8115, 8118, 8120, 8121, 8122, 8123, 8126, 8127, 8128, 8134, 8135, 8140, 8145, 8150, 8160, 8190, 8235, 8280, 8281, 8282, 8283, 8284, 8285, 8290, 8325, 8370, 8375, 8378, 8379, 8380, 8381, 8382, 8384, 8390, 8395, 8400, 8405, 8410, 8415, 8460, 8470, 8480, 8505, 8550, 8595, 8640, 8685, 8730, 8735, 8736, 8737, 8750, 8751, 8755, 8756, 8757, 8758, 8759, 8760, 8761, 8762, 8771, 8772, 8773, 8775, 8776, 8778, 8779, 8780, 8782, 8785, 8790, 8791, 8792, 8793, 8795, 8812, 8816, 8818, 8819, 8820, 8824, 8825, 8826, 8830, 8831, 8832, 8840, 8845, 8846, 8847, 8848, 8849, 8850, 8851, 8852, 8865, 8866, 8867, 8868, 8869, 8870, 8871, 8880, 8910, 8955, 8980, 8985, 8990, 8993, 8995, 9000, 9005, 9045, 9075, 9090, 9135, 9180, 9185, 9200, 9205, 9215, 9225, 9270, 9280, 9281, 9285, 9300, 9310, 9315, 9360, 9370, 9405, 9406, 9450, 9475, 9485, 9495, 9505, 9510, 9530, 9540, 9585, 9630, 9638, 9639, 9640, 9642, 9643, 9645, 9659, 9660, 9661, 9662, 9675, 9720, 9765, 9775, 9780, 9781, 9810, 9855, 9885, 9900, 9903, 9905, 9920, 9930, 9933, 9935, 9945, 9990, 10035, 10057, 10080, 10090, 10125, 10170, 10215, 10260, 10305, 10308, 10310, 10312, 10315, 10350, 10395, 10440, 10450, 10485, 10500, 10510, 10511, 10512, 10513, 10520, 10530, 10540, 10575, 10595, 10620, 10630, 10642, 10650, 10665, 10710, 10711, 10740, 10755, 10800, 10845, 10846, 10890, 10891, 10892, 10895, 10935, 10940, 10980, 10985, 10987, 10988, 10989, 10990, 10991, 10992, 10993, 10994, 10995, 10996, 11000, 11010, 11020, 11025, 11030, 11070, 11115, 11117, 11118, 11119, 11120, 11123, 11125, 11130, 11133, 11137, 11155, 11160, 11165, 11205, 11230, 11235, 11240, 11250, 11260, 11265, 11270, 11280, 11290, 11295, 11340, 11385, 11430, 11475, 11520, 11565, 11610, 11655, 11660, 11665, 11700, 11715, 11725, 11735, 11745, 11748, 11790, 11800, 11810, 11825, 11830, 11835, 11840, 11860, 11880, 11902, 11925, 11970, 11975, 12010, 12015, 12016, 12018, 12060, 12090, 12105, 12110, 12111, 12150, 12195, 12196, 12197, 12240, 12285, 12292, 12330, 12375, 12420, 12430, 12465, 12510, 12555, 12600, 12610, 12615, 12616, 12645, 12655, 12690, 12691, 12694, 12735, 12780, 12782, 12785, 12787, 12800, 12805, 12825, 12850, 12870, 12875, 12915, 12916, 12960, 13005, 13006, 13007, 13015, 13020, 13050, 13055, 13095, 13140, 13141, 13142, 13143, 13185, 13230, 13275, 13280, 13320, 13360, 13365, 13410, 13415, 13420, 13450, 13452, 13455, 13456, 13460, 13465, 13477, 13480, 13481, 13485, 13500, 13545, 13546, 13585, 13590, 13635, 13680, 13725, 13770, 13815, 13860, 13905, 13915, 13950, 13994, 13995, 14020, 14040, 14041, 14085, 14086, 14130, 14131, 14175, 14220, 14265, 14310, 14355, 14400, 14445, 14490, 14535, 14545, 14560, 14580, 14583, 14585, 14586, 14587, 14588, 14590, 14600, 14601, 14625, 14640, 14660, 14670, 14677, 14710, 14713, 14715, 14725, 14726, 14727, 14728, 14730, 14735, 14736, 14737, 14738, 14739, 14740, 14741, 14742, 14743, 14744, 14745, 14746, 14747, 14748, 14749, 14750, 14751, 14755, 14760, 14765, 14770, 14772, 14775, 14776, 14777, 14779, 14780, 14785, 14790, 14800, 14805, 14806, 14807, 14808, 14809, 14810, 14811, 14815, 14820, 14821, 14822, 14830, 14831, 14832, 14833, 14835, 14845, 14850, 14851, 14895, 14896, 14897, 14898, 14900, 14901, 14902, 14903, 14905, 14935, 14936, 14940, 14985, 15030, 15075, 15120, 15140, 15155, 15156, 15160, 15161, 15163, 15165, 15200, 15210, 15220, 15230, 15240, 15255, 15300, 15301, 15302, 15303, 15304, 15305, 15310, 15312, 15313, 15315, 15317, 15318, 15319, 15320, 15345, 15390, 15435, 15470, 15475, 15480, 15525, 15570, 15615, 15620, 15650, 15660, 15661, 15705, 15750, 15795, 15800, 15840, 15842, 15885, 15930, 15970, 15975, 15980, 15985, 15990, 16000, 16020, 16030, 16035, 16065, 16110, 16155, 16160, 16200, 16245, 16290, 16300, 16335, 16380, 16390, 16400, 16405, 16410, 16412, 16420, 16421, 16422, 16423, 16424, 16425, 16426, 16470, 16515, 16520, 16550, 16552, 16554, 16560, 16561, 16564, 16565, 16580, 16581, 16585, 16587, 16590, 16596, 16605, 16606, 16650, 16652, 16654, 16655, 16658, 16660, 16662, 16663, 16670, 16690, 16695, 16725, 16730, 16732, 16733, 16734, 16735, 16736, 16737, 16740, 16750, 16785, 16787, 16789, 16790, 16800, 16815, 16820, 16825, 16830, 16833, 16835, 16840, 16850, 16858, 16870, 16871, 16872, 16875, 16876, 16877, 16879, 16880, 16881, 16884, 16888, 16890, 16895, 16900, 16903, 16905, 16908, 16912, 16915, 16920, 16925, 16930, 16935, 16940, 16942, 16945, 16946, 16947, 16948, 16949, 16950, 16951, 16960, 16963, 16965, 17010, 17016, 17025, 17027, 17029, 17030, 17031, 17032, 17050, 17055, 17070, 17075, 17079, 17080, 17100, 17145, 17190, 17220, 17225, 17230, 17235, 17250, 17255, 17280, 17325, 17370, 17415, 17460, 17505, 17550, 17572, 17590, 17595, 17640, 17685, 17730, 17732, 17735, 17745, 17775, 17820, 17842, 17865, 17910, 17955, 18000, 18045, 18090, 18135, 18150, 18180, 18185, 18189, 18190, 18193, 18194, 18195, 18200, 18201, 18225, 18270, 18280, 18315, 18316, 18318, 18320, 18325, 18330, 18331, 18332, 18339, 18340, 18348, 18350, 18351, 18352, 18353, 18355, 18357, 18360, 18400, 18405, 18406, 18407, 18408, 18409, 18410, 18445, 18449, 18450, 18451, 18452, 18453, 18454, 18455, 18456, 18457, 18458, 18459, 18460, 18461, 18462, 18464, 18465, 18466, 18467, 18468, 18469, 18470, 18471, 18475, 18495, 18540, 18550, 18551, 18555, 18556, 18557, 18560, 18561, 18565, 18570, 18571, 18572, 18575, 18578, 18580, 18582, 18583, 18585, 18586, 18600, 18610, 18611, 18615, 18630, 18675, 18700, 18710, 18720, 18765, 18766, 18767, 18768, 18770, 18774, 18775, 18776, 18777, 18780, 18781, 18782, 18784, 18785, 18786, 18787, 18789, 18790, 18791, 18792, 18795, 18797, 18805, 18810, 18855, 18900, 18930, 18944, 18945, 18946, 18947, 18948, 18950, 18951, 18952, 18955, 18960, 18961, 18962, 18990, 19035, 19037, 19039, 19040, 19041, 19042, 19045, 19050, 19051, 19052, 19053, 19054, 19060, 19080, 19125, 19127, 19129, 19130, 19131, 19132, 19140, 19142, 19143, 19145, 19150, 19170, 19215, 19260, 19305, 19306, 19307, 19309, 19310, 19320, 19330, 19340, 19350, 19370, 19395, 19396, 19397, 19398, 19399, 19400, 19440, 19485, 19500, 19505, 19520, 19530, 19575, 19620, 19665, 19710, 19755, 19800, 19845, 19890, 19920, 19935, 19950, 19955, 19960, 19970, 19971, 19980, 20025, 20029, 20030, 20040, 20060, 20070, 20090, 20115, 20160, 20205, 20250, 20295, 20340, 20350, 20360, 20385, 20420, 20430, 20475, 20495, 20520, 20530, 20565, 20585, 20589, 20590, 20610, 20655, 20700, 20745, 20790, 20835, 20880, 20890, 20895, 20897, 20898, 20915, 20917, 20918, 20919, 20920, 20925, 20927, 20929, 20930, 20931, 20933, 20935, 20940, 20942, 20943, 20945, 20950, 20955, 20969, 20970, 21015, 21060, 21105, 21110, 21130, 21150, 21195, 21240, 21285, 21330, 21332, 21340, 21359, 21360, 21375, 21390, 21419, 21420, 21465, 21490, 21492, 21495, 21500, 21510, 21555, 21600, 21610, 21615, 21620, 21623, 21625, 21645, 21646, 21647, 21648, 21649, 21650, 21655, 21660, 21661, 21665, 21672, 21675, 21680, 21682, 21685, 21690, 21692, 21693, 21695, 21696, 21697, 21698, 21699, 21700, 21701, 21702, 21703, 21704, 21705, 21706, 21707, 21708, 21709, 21710, 21711, 21712, 21715, 21716, 21720, 21735, 21780, 21825, 21870, 21871, 21872, 21873, 21874, 21875, 21876, 21877, 21878, 21879, 21880, 21881, 21884, 21885, 21886, 21890, 21895, 21915, 21917, 21918, 21919, 21920, 21960, 21965, 21970, 21980, 21981, 21982, 21983, 21984, 21985, 21986, 21987, 21988, 21989, 21990, 21991, 21992, 21995, 22000, 22005, 22050, 22095, 22110, 22115, 22125, 22127, 22130, 22140, 22185, 22230, 22275, 22320, 22335, 22340, 22345, 22365, 22410, 22411, 22455, 22460, 22463, 22500, 22505, 22545, 22560, 22590, 22635, 22640, 22680, 22690, 22695, 22696, 22697, 22700, 22701, 22705, 22706, 22725, 22730, 22732, 22735, 22736, 22737, 22740, 22745, 22750, 22760, 22770, 22800, 22810, 22815, 22830, 22860, 22890, 22900, 22905, 22906, 22950, 22955, 22956, 22957, 22959, 22960, 22961, 22962, 22963, 22964, 22965, 22970, 22977, 22995, 22998, 23040, 23041, 23042, 23043, 23045, 23050, 23053, 23055, 23085, 23095, 23100, 23130, 23175, 23220, 23240, 23265, 23295, 23310, 23355, 23400, 23445, 23450, 23490, 23500, 23515, 23525, 23529, 23530, 23535, 23580, 23625, 23670, 23675, 23680, 23685, 23690, 23695, 23700, 23701, 23704, 23710, 23715, 23760, 23805, 23850, 23895, 23925, 23940, 23985, 23990, 24020, 24030, 24035, 24075, 24095, 24098, 24100, 24110, 24120, 24165, 24210, 24255, 24300, 24320, 24345, 24385, 24386, 24390, 24435, 24480, 24525, 24535, 24540, 24569, 24570, 24614, 24615, 24616, 24617, 24618, 24619, 24620, 24622, 24630, 24631, 24633, 24635, 24640, 24650, 24660, 24705, 24706, 24707, 24709, 24710, 24720, 24750, 24755, 24757, 24758, 24760, 24761, 24768, 24769, 24770, 24771, 24772, 24774, 24775, 24776, 24780, 24781, 24795, 24800, 24840, 24885, 24890, 24930, 24975, 25020, 25065, 25110, 25150, 25155, 25170, 25171, 25180, 25200, 25205, 25245, 25250, 25259, 25260, 25265, 25270, 25273, 25275, 25276, 25277, 25278, 25279, 25280, 25281, 25282, 25283, 25285, 25286, 25287, 25288, 25289, 25290, 25291, 25292, 25300, 25335, 25380, 25425, 25470, 25515, 25530, 25540, 25545, 25550, 25560, 25605, 25630, 25635, 25650, 25694, 25695, 25698, 25735, 25736, 25739, 25740, 25745, 25750, 25760, 25762, 25770, 25785, 25830, 25835, 25840, 25845, 25850, 25853, 25855, 25860, 25875, 25885, 25890, 25891, 25892, 25895, 25896, 25897, 25898, 25899, 25900, 25901, 25902, 25903, 25904, 25906, 25907, 25908, 25909, 25910, 25911, 25912, 25915, 25920, 25940, 25950, 25955, 25958, 25965, 25966, 25967, 25968, 25969, 25970, 25971, 25972, 25973, 25974, 25975, 25976, 25977, 25978, 25979, 25980, 26008, 26010, 26011, 26015, 26020, 26040, 26041, 26043, 26045, 26053, 26055, 26100, 26145, 26190, 26210, 26235, 26236, 26237, 26238, 26280, 26325, 26326, 26327, 26328, 26330, 26340, 26350, 26353, 26354, 26355, 26360, 26361, 26362, 26370, 26415, 26460, 26505, 26506, 26550, 26595, 26596, 26597, 26600, 26610, 26640, 26650, 26660, 26665, 26670, 26672, 26673, 26674, 26675, 26676, 26677, 26678, 26679, 26680, 26681, 26682, 26683, 26684, 26685, 26686, 26687, 26730, 26775, 26795, 26797, 26799, 26805, 26810, 26820, 26865, 26900, 26910, 26920, 26925, 26926, 26930, 26935, 26945, 26950, 26955, 27000, 27045, 27090, 27095, 27100, 27101, 27102, 27109, 27110, 27111, 27113, 27115, 27116, 27125, 27135, 27137, 27139, 27140, 27141, 27142, 27143, 27150, 27175, 27180, 27183, 27190, 27225, 27230, 27235, 27239, 27240, 27245, 27248, 27251, 27260, 27270, 27315, 27360, 27405, 27430, 27450, 27451, 27495, 27540, 27550, 27560, 27570, 27575, 27580, 27582, 27583, 27584, 27585, 27630, 27675, 27680, 27720, 27765, 27770, 27771, 27773, 27775, 27780, 27790, 27800, 27802, 27803, 27810, 27855, 27870, 27873, 27875, 27900, 27945, 27980, 27990, 28035, 28080, 28125, 28170, 28215, 28260, 28280, 28305, 28350, 28395, 28440, 28445, 28480, 28485, 28530, 28575, 28620, 28665, 28710, 28755, 28760, 28770, 28800, 28845, 28890, 28935, 28980, 29025, 29030, 29035, 29043, 29045, 29050, 29060, 29070, 29115, 29160, 29172, 29175, 29180, 29185, 29190, 29191, 29200, 29205, 29210, 29215, 29220, 29250, 29270, 29295, 29297, 29300, 29301, 29305, 29340, 29385, 29400, 29430, 29431, 29432, 29433, 29434, 29435, 29440, 29450, 29475, 29520, 29565, 29610, 29655, 29700, 29745, 29790, 29835, 29880, 29925, 29970, 30015, 30016, 30060, 30065, 30068, 30069, 30070, 30072, 30075, 30080, 30105, 30140, 30150, 30195, 30200, 30240, 30255, 30285, 30330, 30375, 30420, 30421, 30465, 30470, 30471, 30475, 30480, 30490, 30510, 30520, 30555, 30580, 30600, 30645, 30650, 30660, 30661, 30662, 30665, 30670, 30690, 30691, 30692, 30696, 30700, 30701, 30710, 30735, 30780, 30825, 30870, 30915, 30960, 31005, 31050, 31070, 31080, 31095, 31096, 31097, 31100, 31140, 31185, 31230, 31275, 31320, 31365, 31410, 31455, 31475, 31500, 31545, 31590, 31592, 31593, 31635, 31680, 31681, 31682, 31684, 31685, 31700, 31725, 31730, 31740, 31765, 31766, 31770, 31815, 31860, 31870, 31875, 31880, 31890, 31905, 31925, 31935, 31950, 31951, 31952, 31953, 31955, 31956, 31957, 31959, 31960, 31970, 31971, 31972, 31995, 32010, 32020, 32040, 32085, 32130, 32175, 32220, 32265, 32310, 32330, 32355, 32365, 32373, 32375, 32385, 32400, 32445, 32455, 32490, 32535, 32580, 32625, 32670, 32715, 32760, 32805, 32850, 32851, 32852, 32895, 32940, 32985, 33025, 33030, 33075, 33120, 33125, 33140, 33165, 33166, 33210, 33230, 33231, 33255, 33300, 33345, 33390, 33435, 33480, 33481, 33483, 33484, 33485, 33486, 33505, 33510, 33511, 33525, 33570, 33580, 33582, 33584, 33585, 33586, 33590, 33595, 33600, 33615, 33660, 33705, 33750, 33795, 33840, 33850, 33860, 33870, 33885, 33930, 33933, 33935, 33950, 33975, 34020, 34040, 34065, 34110, 34155, 34200, 34245, 34290, 34335, 34380, 34425, 34470, 34480, 34500, 34505, 34515, 34516, 34517, 34560, 34605, 34607, 34610, 34620, 34624, 34625, 34626, 34627, 34628, 34629, 34630, 34640, 34644, 34645, 34646, 34647, 34648, 34649, 34650, 34655, 34660, 34665, 34670, 34680, 34695, 34700, 34740, 34785, 34786, 34795, 34830, 34875, 34920, 34965, 34966, 35010, 35055, 35100, 35145, 35190, 35235, 35280, 35325, 35370, 35415, 35460, 35470, 35475, 35477, 35478, 35479, 35480, 35481, 35482, 35483, 35484, 35485, 35486, 35487, 35488, 35489, 35490, 35491, 35505, 35550, 35570, 35580, 35583, 35585, 35586, 35595, 35640, 35685, 35730, 35775, 35785, 35800, 35810, 35820, 35865, 35910, 35955, 36000, 36045, 36046, 36090, 36120, 36135, 36180, 36200, 36201, 36220, 36225, 36226, 36230, 36270, 36300, 36315, 36320, 36360, 36365, 36370, 36371, 36380, 36381, 36382, 36383, 36384, 36385, 36386, 36387, 36388, 36389, 36390, 36391, 36400, 36405, 36417, 36420, 36425, 36430, 36440, 36441, 36442, 36443, 36446, 36447, 36450, 36460, 36495, 36540, 36550, 36563, 36585, 36590, 36595, 36600, 36630, 36675, 36720, 36765, 36810, 36821, 36827, 36830, 36835, 36836, 36838, 36840, 36843, 36846, 36850, 36853, 36855, 36900, 36905, 36945, 36946, 36947, 36948, 36960, 36985, 36990, 36992, 37010, 37011, 37033, 37035, 37038, 37039, 37040, 37041, 37043, 37045, 37047, 37048, 37049, 37050, 37052, 37053, 37058, 37059, 37060, 37070, 37073, 37075, 37077, 37078, 37079, 37080, 37081, 37082, 37083, 37084, 37086, 37090, 37095, 37100, 37105, 37110, 37124, 37125, 37170, 37215, 37260, 37265, 37305, 37350, 37395, 37440, 37485, 37530, 37534, 37535, 37540, 37543, 37544, 37575, 37620, 37665, 37670, 37675, 37710, 37755, 37800, 37810, 37815, 37825, 37828, 37840, 37845, 37850, 37890, 37935, 37980, 37985, 37990, 38025, 38035, 38038, 38045, 38046, 38047, 38048, 38049, 38050, 38051, 38055, 38058, 38060, 38070, 38115, 38120, 38140, 38150, 38160, 38205, 38210, 38250, 38260, 38270, 38275, 38276, 38280, 38295, 38320, 38340, 38385, 38430, 38475, 38520, 38525, 38565, 38568, 38570, 38572, 38610, 38655, 38700, 38715, 38730, 38735, 38745, 38748, 38790, 38835, 38840, 38880, 38925, 38930, 38935, 38950, 38955, 38957, 38960, 38965, 38966, 38970, 38990, 38995, 39000, 39014, 39015, 39050, 39060, 39061, 39062, 39063, 39065, 39066, 39067, 39070, 39071, 39073, 39074, 39075, 39080, 39081, 39085, 39105, 39110, 39112, 39125, 39126, 39127, 39131, 39150, 39200, 39201, 39202, 39203, 39204, 39210, 39211, 39212, 45300, 45303, 45304, 45305, 45307] },
    EnumInfo { name: "EmitterSystemFunction", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 56, 57, 58, 59, 60, 61, 62, 64, 65, 66, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 96, 97, 98, 99, 100, 101, 102, 103] },
    EnumInfo { name: "EntityCapabilities", width: 4, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] },
    EnumInfo { name: "EntityKind", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "EntityMarkingCharacterSet", width: 1, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "EventType", width: 4, default: 0, values: &[0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19] },
    EnumInfo { name: "ForceId", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30] },
    EnumInfo { name: "GridAxisDescriptorAxisType", width: 1, default: 0, values: &[0, 1] },
    EnumInfo { name: "GriddedDataConstantGrid", width: 1, default: 0, values: &[0, 1] },
    EnumInfo { name: "GriddedDataCoordinateSystem", width: 2, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "GriddedDataDataRepresentation", width: 2, default: 0, values: &[0, 1, 2] },
    EnumInfo { name: "GriddedDataSampleType", width: 2, default: 0, values: &[0] },
    EnumInfo { name: "IOActionIOActionPhase", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6] },
    EnumInfo { name: "IOActionIOActionType", width: 2, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "IOActionIOSimulationSource", width: 2, default: 0, values: &[0] },
    EnumInfo { name: "IOActionIOWarfareType", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6] },
    EnumInfo { name: "IOReportIOReportType", width: 1, default: 0, values: &[0, 1, 2, 3] },
    EnumInfo { name: "IntercomControlCommand", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6] },
    EnumInfo { name: "IntercomControlControlType", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5] },
    EnumInfo { name: "IntercomControlTransmitLineState", width: 1, default: 0, values: &[0, 1, 2] },
    EnumInfo { name: "IsGroupOfGroupedEntityCategory", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "MinefieldSensorTypes", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8] },
    EnumInfo { name: "MinefieldStateProtocolMode", width: 2, default: 0, values: &[0, 1] },
    EnumInfo { name: "PduType", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72] },
    EnumInfo { name: "ProtocolFamily", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13] },
    EnumInfo { name: "ProtocolVersion", width: 1, default: 7, values: &[0, 1, 2, 3, 4, 5, 6, 7] },
    EnumInfo { name: "Reason", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8] },
    EnumInfo { name: "ReceiverReceiverState", width: 2, default: 0, values: &[0, 1, 2] },
    EnumInfo { name: "RecordQueryREventType", width: 2, default: 0, values: &[0, 1] },
    EnumInfo { name: "RepairCompleteRepair", width: 2, default: 0, values: &[0, 1, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 1000, 1010, 1020, 1030, 1040, 1050, 1500, 1520, 1540, 1550, 1560, 2000, 2010, 2020, 2030, 2040, 2050, 2060, 2070, 2090, 2100, 2110, 2120, 4000, 4010, 4020, 4030, 4500, 4600, 4610, 4620, 4630, 4640, 4700, 4710, 4720, 4800, 4810, 4820, 4830, 4840, 5000, 5010, 5100, 5200, 5250, 5300, 5350, 5500, 6000, 6500, 8000, 8010, 8020, 8030, 8040, 8050, 8060, 9000, 9010, 9020, 9030, 9040, 9050, 10000, 10010, 10020] },
    EnumInfo { name: "RepairGroups", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "RepairResponseRepairResult", width: 1, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "RequiredReliabilityService", width: 1, default: 0, values: &[0, 1] },
    EnumInfo { name: "ServiceRequestServiceTypeRequested", width: 1, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "SignalTDLType", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 125, 126, 127] },
    EnumInfo { name: "TransferControlTransferType", width: 1, default: 0, values: &[0, 1, 2, 4, 5, 7, 8, 9, 10] },
    EnumInfo { name: "TransmitterAntennaPatternReferenceSystem", width: 1, default: 1, values: &[1, 2] },
    EnumInfo { name: "TransmitterAntennaPatternType", width: 2, default: 0, values: &[0, 1, 2, 4, 5, 6] },
    EnumInfo { name: "TransmitterCryptoSystem", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] },
    EnumInfo { name: "TransmitterInputSource", width: 1, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] },
    EnumInfo { name: "TransmitterTransmitState", width: 1, default: 0, values: &[0, 1, 2] },
    EnumInfo { name: "UAAcousticEmitterSystemFunction", width: 1, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "UAAcousticSystemName", width: 2, default: 0, values: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] },
    EnumInfo { name: "UAPassiveParameterIndex", width: 2, default: 0, values: &[0] },
    EnumInfo { name: "UAStateChangeUpdateIndicator", width: 1, default: 0, values: &[0, 1] },
    EnumInfo { name: "VariableParameterRecordType", width: 4, default: 0, values: &[0, 1, 2, 3, 4] },
    EnumInfo { name: "VariableRecordTypes", width: 4, default: 1, values: &[1, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1009, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1061, 1111, 1112, 1114, 1115, 1116, 1118, 1119, 1120, 1200, 3000, 3500, 3501, 3502, 4000, 4001, 4500, 5000, 5001, 5002, 5003, 5004, 5005, 5006, 5007, 5008, 5009, 5010, 5011, 5012, 5013, 5014, 5500, 5501, 10000, 10010, 10020, 10030, 10110, 10115, 10140, 10150, 10157, 10160, 10170, 10190, 10250, 10254, 10256, 10258, 10259, 10262, 10263, 10264, 10267, 10268, 10280, 10290, 10300, 10306, 10307, 10308, 10310, 10311, 10312, 10313, 10314, 10315, 10316, 10400, 10600, 11000, 11100, 11110, 11120, 11130, 11140, 11150, 11160, 11170, 11180, 11200, 11300, 11500, 11501, 11502, 11503, 11504, 12000, 12110, 12120, 12130, 12140, 12150, 12160, 12170, 12300, 13000, 13100, 13200, 14000, 14200, 14300, 14400, 14500, 14520, 14540, 14600, 14700, 14800, 15000, 15100, 15200, 15300, 15400, 15500, 15510, 15600, 15800, 19177, 20000, 21000, 21100, 21200, 21300, 23000, 23100, 23105, 24000, 24001, 24002, 24003, 24004, 24005, 24006, 24007, 24008, 24009, 24010, 24060, 24100, 24110, 24120, 24130, 24140, 24150, 24160, 24300, 25000, 26000, 27000, 28000, 30000, 30010, 30100, 30300, 30400, 30401, 30402, 30403, 30404, 30405, 30406, 30407, 30408, 30409, 30410, 30411, 30412, 30413, 30414, 30415, 30416, 30417, 30418, 30419, 30420, 30421, 30422, 30423, 30424, 30425, 30426, 30427, 30428, 30429, 30430, 30431, 31000, 31010, 31100, 31200, 31210, 31220, 31230, 31300, 31400, 31500, 31510, 31520, 31530, 31600, 31700, 31800, 31900, 32000, 32100, 32200, 32300, 32500, 32600, 32700, 33000, 33100, 33101, 33200, 33300, 33400, 33500, 33600, 33710, 33720, 33730, 34000, 34100, 34110, 35000, 35050, 35100, 35200, 35300, 36000, 36100, 36200, 36300, 36400, 37000, 37100, 37200, 37300, 38100, 39000, 40000, 40010, 40015, 40020, 41000, 42000, 42100, 42200, 42300, 43000, 43100, 43200, 43300, 43410, 43420, 43430, 43440, 44000, 44100, 44110, 44120, 44130, 44140, 44200, 44210, 44220, 44230, 44240, 44300, 44310, 44320, 44330, 44340, 44400, 44410, 44420, 44430, 44440, 44500, 44510, 44520, 44530, 44540, 45000, 45005, 45010, 45020, 45030, 45040, 45050, 45060, 45070, 45080, 46000, 46010, 50000, 50103, 50106, 50118, 50120, 50124, 50126, 50600, 50700, 51000, 51010, 51100, 51110, 51111, 52000, 52001, 52100, 52200, 52300, 52305, 52310, 52320, 52330, 52340, 52350, 52360, 52370, 52380, 52400, 52410, 52420, 52430, 52440, 52500, 52510, 52511, 52520, 52530, 52600, 52601, 52602, 52610, 52620, 52630, 53000, 53050, 53060, 53100, 53200, 53250, 53300, 53350, 53400, 53410, 53420, 53430, 54000, 54100, 55000, 55100, 55101, 55105, 55200, 55300, 55401, 55410, 55420, 55425, 55430, 55435, 56000, 56100, 56105, 56110, 56111, 56120, 56121, 56130, 56140, 56200, 56205, 56210, 56220, 56221, 56230, 56231, 56240, 56310, 56320, 56330, 56340, 56350, 57200, 57300, 57400, 57410, 57411, 57420, 57421, 57500, 57610, 57611, 57620, 57621, 58000, 58100, 58105, 58200, 58430, 58435, 59000, 59100, 59110, 59115, 59120, 59125, 59130, 59135, 59140, 59145, 59150, 59155, 59160, 60000, 61005, 61100, 61101, 61200, 61300, 61400, 61500, 61600, 61700, 62100, 62101, 62200, 62300, 62400, 62500, 63101, 63102, 63103, 63104, 63105, 63106, 63107, 63108, 63109, 63110, 63111, 63112, 63113, 63114, 63115, 70000, 71000, 71100, 71200, 71300, 72000, 72100, 72600, 72700, 73000, 74000, 75000, 75100, 75200, 90000, 90050, 90070, 90100, 90200, 90300, 90400, 90500, 90600, 90700, 90800, 90900, 91000, 91100, 91200, 91300, 91400, 91500, 91600, 100001, 100002, 100003, 100004, 100005, 100008, 100010, 100011, 100012, 100014, 100047, 100048, 100058, 100061, 100063, 100068, 100100, 100160, 100161, 100162, 100163, 100164, 100165, 100166, 100167, 100169, 100170, 100171, 100172, 100200, 100205, 100206, 100207, 100208, 100213, 100214, 100218, 100300, 100400, 100500, 100510, 100520, 100600, 100610, 100620, 100631, 100632, 100633, 100634, 100640, 100650, 100660, 100661, 100662, 100700, 100800, 100900, 101000, 101100, 101200, 101300, 101310, 101320, 101321, 101330, 101340, 101350, 101360, 101370, 101400, 101500, 102100, 102200, 200201, 200202, 200203, 200204, 200205, 200207, 200210, 200211, 200213, 200214, 200215, 200216, 200217, 200301, 200302, 200303, 200304, 200305, 200307, 200310, 200311, 200313, 200314, 200315, 200316, 200317, 200400, 200401, 200402, 200403, 200404, 200405, 200406, 200407, 200408, 200409, 200410, 200411, 200412, 200413, 200414, 200415, 200416, 200417, 200418, 200419, 200420, 200421, 200422, 200423, 200424, 200425, 200426, 200427, 200428, 200429, 200430, 200431, 200432, 200433, 200434, 200435, 200436, 200437, 200501, 200502, 200503, 200504, 200505, 200506, 200507, 200508, 200509, 200510, 200511, 200512, 200513, 200514, 200515, 200516, 200517, 200518, 200519, 200521, 200522, 200523, 200524, 200525, 200600, 200601, 200602, 200603, 200604, 200605, 200606, 200607, 200608, 200609, 200610, 200611, 200612, 200613, 240000, 240001, 240002, 240003, 240004, 240005, 240006, 240007, 240008, 240009, 240010, 240011, 240012, 240013, 240014, 240015, 240016, 240017, 240018, 240019, 240020, 240021, 240022, 240023, 240024, 240025, 240026, 240027, 240028, 240029, 240030, 240031, 240032, 240033, 240034, 240035, 240036, 240037, 240038, 240039, 240040, 240041, 240042, 240043, 240044, 240045, 240046, 240047, 240048, 240049, 240050, 240051, 240052, 240053, 240054, 240055, 240056, 240057, 240058, 240059, 240060, 240061, 240062, 240063, 240064, 240065, 240066, 240067, 240068, 240069, 240070, 240071, 240072, 240073, 240074, 240075, 240076, 240077, 240078, 240079, 240080, 240081, 240082, 240083, 240084, 240085, 240086, 240087, 240088, 240089, 240090, 240091, 240092, 240093, 240094, 240095, 240096, 240097, 240098, 240099, 240100, 240101, 240102, 240103, 240104, 240105, 240106, 240107, 240108, 240109, 240110, 240111, 240112, 240113, 240114, 240115, 240116, 240117, 240118, 240119, 240120, 240121, 240122, 240123, 240124, 240125, 240126, 240127, 240128, 240129, 240130, 240131, 240132, 240133, 240134, 240135, 240136, 240137, 240138, 240139, 240140, 240141, 240142, 240143, 240144, 240145, 240146, 240147, 240148, 240149, 240150, 240151, 240152, 240153, 270115, 270116, 270117, 270150, 270151, 270152, 270153, 270154, 270155, 270156, 270157, 270158, 270159, 270160, 270161, 270162, 270163, 270164, 270165, 270166, 300000, 300001, 300002, 300003, 300004, 300005, 300006, 300007, 300008, 300009, 300010, 300011, 300012, 300013, 300014, 300016, 300017, 300018, 300019, 300020, 300021, 300022, 300023, 300024, 300025, 300026, 300027, 301100, 301130, 301140, 301150, 301151, 301152, 301160, 301170, 301171, 301174, 301175, 301176, 301177, 301178, 301179, 301180, 301181, 301182, 301183, 301184, 301185, 301186, 301187, 301189, 301190, 301191, 301197, 301198, 301199, 301200, 301201, 301202, 301220, 301221, 301222, 301223, 301224, 301225, 301226, 301227, 301228, 301229, 301234, 301237, 301238, 301239, 301240, 301241, 301242, 301243, 301244, 301255, 301256, 400008, 400009, 400010, 400011, 400012, 400013, 400014, 400015, 400016, 400017, 400018, 400019, 400020, 400021, 400022, 400023, 400024, 400025, 400026, 400027, 400028, 400029, 400030, 400031, 400032, 400033, 500001, 500002, 500003, 500004, 500005, 500006, 500007, 500008, 500009, 500010, 500011, 500012, 500013, 500014, 500015, 500016, 500017, 500018, 500019, 500021, 500022, 500023, 500024, 500025, 500026, 500027, 500028, 500029, 500200, 500201, 500202, 500203, 500204, 500205, 551001, 551002, 551003, 551004, 551005, 551006, 551007, 552001, 552002, 553001, 553002, 553003, 553004, 553005, 553006, 553007, 553008, 553009, 553010, 553011, 553012, 553013, 553014, 553015, 553016, 553017, 553018, 553019, 553020, 553021, 553022, 553028, 553029, 554001, 554002, 554003, 554004, 554005, 554006, 554007, 554008, 554009, 554010, 554100, 554101, 554102, 554103, 554104, 554105, 554106, 554107, 554108, 554109, 554110, 555001, 555002, 555003, 555004, 555005, 555006, 555007, 555008, 556001, 556007, 556008, 556016, 556017, 556018, 556019, 556020, 556029, 557001, 557002, 557003, 557004, 557005, 557006, 557007, 557008, 557009, 557010, 559001, 559002, 559003, 559004, 559005, 559006, 559007, 559008, 559009, 559010, 559011, 559012, 559999, 600001, 600002, 600210, 600212, 600214, 600215, 600216, 600218, 600219, 600220, 600300, 600301, 600302, 600303, 600304, 600305, 600306, 600307, 600308, 610006, 610007, 610008, 610009, 610010, 610011, 610012, 610013, 610015, 610016, 610017, 610025, 610026, 610027, 610029, 610032, 610035, 610036, 610037, 610040, 610042, 610043, 610044, 610045, 610046, 610047, 610048, 610049, 610050, 613002, 613003, 613004, 613005, 613006, 613007, 613008, 613013, 613016, 613017, 613020, 613021, 613022, 613027, 613028, 613029, 613030, 613031, 615000, 615001, 615002, 615003, 615004, 615005, 615006, 615007, 615008, 615009, 615010, 615011, 615012, 615013, 615015, 615017, 615018, 615019, 615020, 615021, 615022, 615023, 615024, 615025, 615026, 615027, 615028, 615029, 615030, 615031, 615032, 615033, 615034, 615035, 615036, 615037, 615038, 700000, 700001, 700002, 700003, 700004, 700005, 1000620, 2000000, 2000010, 2000020, 2000030, 2000031, 2000032, 2000033, 2000034, 2000035, 2000036, 2000037, 2000038, 2000039, 2000040, 2000041, 2000042, 2000043, 2000044, 2000045, 2000050, 5005001, 5005002, 5005003, 5005006, 5005008, 5005009, 5005010, 5005011, 5005012, 5005014, 5005055, 5005060, 5005061, 5005063, 5005070, 5005080, 5005081, 5007010, 5007020, 5007030, 5007040, 5007050, 5008010, 5008020, 5008030, 5008040, 5008050, 5008060, 5008070, 5008080, 5009010, 5009020, 5507010] },
];
impl Model for FrozenBehavior {
    fn gen_(g: &mut Gen) -> Self { FrozenBehavior::from_bits_retain(g.u8() & 7) }
    fn enc(&self, e: &mut Enc) { e.u8(self.bits()); }
}
impl Model for ObjectStateAppearanceGeneral {
    fn gen_(g: &mut Gen) -> Self { ObjectStateAppearanceGeneral::from_bits_retain(g.u16() & 65535) }
    fn enc(&self, e: &mut Enc) { e.u16(self.bits()); }
}
impl Model for AcousticBeamData {
    fn gen_(g: &mut Gen) -> Self {
        let beam_data_length = g.make();
        let beam_id_number = g.make();
        let pad2 = g.make();
        let fundamental_data_parameters = g.make();
        let mut this = AcousticBeamData::default(); this.beam_data_length = beam_data_length; this.beam_id_number = beam_id_number; this.pad2 = pad2; this.fundamental_data_parameters = fundamental_data_parameters; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("beam_data_length", 2, b'u', |e| self.beam_data_length.enc(e));
        e.fixed("beam_id_number", 1, b'u', |e| self.beam_id_number.enc(e));
        e.fixed("pad2", 2, b'u', |e| self.pad2.enc(e));
        e.at("fundamental_data_parameters", |e| self.fundamental_data_parameters.enc(e));
    }
}
impl Model for AcousticBeamFundamentalParameter {
    fn gen_(g: &mut Gen) -> Self {
        let active_emission_parameter_index = g.make();
        let scan_pattern = g.make();
        let beam_center_azimuth = g.make();
        let azimuthal_beamwidth = g.make();
        let beam_center_de = g.make();
        let de_beamwidth = g.make();
        let mut this = AcousticBeamFundamentalParameter::default(); this.active_emission_parameter_index = active_emission_parameter_index; this.scan_pattern = scan_pattern; this.beam_center_azimuth = beam_center_azimuth; this.azimuthal_beamwidth = azimuthal_beamwidth; this.beam_center_de = beam_center_de; this.de_beamwidth = de_beamwidth; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("active_emission_parameter_index", 2, b'u', |e| self.active_emission_parameter_index.enc(e));
        e.fixed("scan_pattern", 2, b'u', |e| self.scan_pattern.enc(e));
        e.fixed("beam_center_azimuth", 4, b'f', |e| self.beam_center_azimuth.enc(e));
        e.fixed("azimuthal_beamwidth", 4, b'f', |e| self.azimuthal_beamwidth.enc(e));
        e.fixed("beam_center_de", 4, b'f', |e| self.beam_center_de.enc(e));
        e.fixed("de_beamwidth", 4, b'f', |e| self.de_beamwidth.enc(e));
    }
}
impl Model for AcousticEmitterSystem {
    fn gen_(g: &mut Gen) -> Self {
        let acoustic_name = g.make();
        let acoustic_function = g.make();
        let acoustic_id = g.make();
        let mut this = AcousticEmitterSystem::default(); this.acoustic_name = acoustic_name; this.acoustic_function = acoustic_function; this.acoustic_id = acoustic_id; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("acoustic_name", 2, b'u', |e| self.acoustic_name.enc(e));
        e.fixed("acoustic_function", 1, b'u', |e| self.acoustic_function.enc(e));
        e.fixed("acoustic_id", 1, b'u', |e| self.acoustic_id.enc(e));
    }
}
impl Model for AcousticEmitterSystemData {
    fn gen_(g: &mut Gen) -> Self {
        let emitter_system_data_length = g.make();
        g.charge(1);
        let pad2 = g.make();
        let acoustic_emitter_system = g.make();
        let emitter_location = g.make();
        let beam_records = g.list(255);
        let number_of_beams = g.cnt(Vec::len(&beam_records)) as _;
        let mut this = AcousticEmitterSystemData::default(); this.emitter_system_data_length = emitter_system_data_length; this.number_of_beams = number_of_beams; this.pad2 = pad2; this.acoustic_emitter_system = acoustic_emitter_system; this.emitter_location = emitter_location; this.beam_records = beam_records; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("emitter_system_data_length", 1, b'u', |e| self.emitter_system_data_length.enc(e));
        e.count(|e| e.fixed("number_of_beams", 1, b'u', |e| self.number_of_beams.enc(e)));
        e.fixed("pad2", 2, b'u', |e| self.pad2.enc(e));
        e.at("acoustic_emitter_system", |e| self.acoustic_emitter_system.enc(e));
        e.at("emitter_location", |e| self.emitter_location.enc(e));
        e.at("beam_records", |e| self.beam_records.enc(e));
    }
}
impl Model for AggregateId {
    fn gen_(g: &mut Gen) -> Self {
        let site = g.make();
        let application = g.make();
        let aggregate_id = g.make();
        let mut this = AggregateId::default(); this.site = site; this.application = application; this.aggregate_id = aggregate_id; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("site", 2, b'u', |e| self.site.enc(e));
        e.fixed("application", 2, b'u', |e| self.application.enc(e));
        e.fixed("aggregate_id", 2, b'u', |e| self.aggregate_id.enc(e));
    }
}
impl Model for AggregateMarking {
    fn gen_(g: &mut Gen) -> Self {
        let character_set = g.make();
        let characters = g.make();
        let mut this = AggregateMarking::default(); this.character_set = character_set; this.characters = characters; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("character_set", 1, b'u', |e| self.character_set.enc(e));
        e.at("characters", |e| self.characters.enc(e));
    }
}
impl Model for AngularVelocity {
    fn gen_(g: &mut Gen) -> Self {
        let rate_about_x_axis = g.make();
        let rate_about_y_axis = g.make();
        let rate_about_z_axis = g.make();
        let mut this = AngularVelocity::default(); this.rate_about_x_axis = rate_about_x_axis; this.rate_about_y_axis = rate_about_y_axis; this.rate_about_z_axis = rate_about_z_axis; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("rate_about_x_axis", 4, b'f', |e| self.rate_about_x_axis.enc(e));
        e.fixed("rate_about_y_axis", 4, b'f', |e| self.rate_about_y_axis.enc(e));
        e.fixed("rate_about_z_axis", 4, b'f', |e| self.rate_about_z_axis.enc(e));
    }
}
impl Model for ApaData {
    fn gen_(g: &mut Gen) -> Self {
        let parameter_index = g.make();
        let parameter_value = g.make();
        let mut this = ApaData::default(); this.parameter_index = parameter_index; this.parameter_value = parameter_value; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("parameter_index", 2, b'u', |e| self.parameter_index.enc(e));
        e.fixed("parameter_value", 2, b'i', |e| self.parameter_value.enc(e));
    }
}
impl Model for AttributeRecord {
    fn gen_(g: &mut Gen) -> Self {
        let record_type = g.make();
        g.charge(2);
        let record_specific_fields = g.list(65535);
        let record_length = g.cnt(Vec::len(&record_specific_fields)) as _;
        let mut this = AttributeRecord::default(); this.record_type = record_type; this.record_length = record_length; this.record_specific_fields = record_specific_fields; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("record_type", 4, b'u', |e| self.record_type.enc(e));
        e.count(|e| e.fixed("record_length", 2, b'u', |e| self.record_length.enc(e)));
        e.at("record_specific_fields", |e| self.record_specific_fields.enc(e));
    }
}
impl Model for AttributeRecordSet {
    fn gen_(g: &mut Gen) -> Self {
        let entity_id = g.make();
        g.charge(2);
        let attribute_records = g.list(65535);
        let number_of_attribute_records = g.cnt(Vec::len(&attribute_records)) as _;
        let mut this = AttributeRecordSet::default(); this.entity_id = entity_id; this.number_of_attribute_records = number_of_attribute_records; this.attribute_records = attribute_records; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.count(|e| e.fixed("number_of_attribute_records", 2, b'u', |e| self.number_of_attribute_records.enc(e)));
        e.at("attribute_records", |e| self.attribute_records.enc(e));
    }
}
impl Model for BeamData {
    fn gen_(g: &mut Gen) -> Self {
        let beam_azimuth_center = g.make();
        let beam_azimuth_sweep = g.make();
        let beam_elevation_center = g.make();
        let beam_elevation_sweep = g.make();
        let beam_sweep_sync = g.make();
        let mut this = BeamData::default(); this.beam_azimuth_center = beam_azimuth_center; this.beam_azimuth_sweep = beam_azimuth_sweep; this.beam_elevation_center = beam_elevation_center; this.beam_elevation_sweep = beam_elevation_sweep; this.beam_sweep_sync = beam_sweep_sync; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("beam_azimuth_center", 4, b'f', |e| self.beam_azimuth_center.enc(e));
        e.fixed("beam_azimuth_sweep", 4, b'f', |e| self.beam_azimuth_sweep.enc(e));
        e.fixed("beam_elevation_center", 4, b'f', |e| self.beam_elevation_center.enc(e));
        e.fixed("beam_elevation_sweep", 4, b'f', |e| self.beam_elevation_sweep.enc(e));
        e.fixed("beam_sweep_sync", 4, b'f', |e| self.beam_sweep_sync.enc(e));
    }
}
impl Model for ClockTime {
    fn gen_(g: &mut Gen) -> Self {
        let hour = g.make();
        let time_past_hour = g.make();
        let mut this = ClockTime::default(); this.hour = hour; this.time_past_hour = time_past_hour; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("hour", 4, b'u', |e| self.hour.enc(e));
        e.fixed("time_past_hour", 4, b'u', |e| self.time_past_hour.enc(e));
    }
}
impl Model for DeadReckoningParameters {
    fn gen_(g: &mut Gen) -> Self {
        let dead_reckoning_algorithm = g.make();
        let dead_reckoning_other_parameters = g.make();
        let entity_linear_acceleration = g.make();
        let entity_angular_velocity = g.make();
        let mut this = DeadReckoningParameters::default(); this.dead_reckoning_algorithm = dead_reckoning_algorithm; this.dead_reckoning_other_parameters = dead_reckoning_other_parameters; this.entity_linear_acceleration = entity_linear_acceleration; this.entity_angular_velocity = entity_angular_velocity; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("dead_reckoning_algorithm", 1, b'u', |e| self.dead_reckoning_algorithm.enc(e));
        e.at("dead_reckoning_other_parameters", |e| self.dead_reckoning_other_parameters.enc(e));
        e.at("entity_linear_acceleration", |e| self.entity_linear_acceleration.enc(e));
        e.at("entity_angular_velocity", |e| self.entity_angular_velocity.enc(e));
    }
}
impl Model for ElectromagneticEmissionBeamData {
    fn gen_(g: &mut Gen) -> Self {
        let beam_data_length = g.make();
        let beam_id_number = g.make();
        let beam_parameter_index = g.make();
        let fundamental_parameter_data = g.make();
        let beam_function = g.make();
        g.charge(1);
        let high_density_track_jam = g.make();
        let pad4 = g.make();
        let jamming_mode_sequence = g.make();
        let track_jam_targets = g.list(255);
        let number_of_track_jam_targets = g.cnt(Vec::len(&track_jam_targets)) as _;
        let mut this = ElectromagneticEmissionBeamData::default(); this.beam_data_length = beam_data_length; this.beam_id_number = beam_id_number; this.beam_parameter_index = beam_parameter_index; this.fundamental_parameter_data = fundamental_parameter_data; this.beam_function = beam_function; this.number_of_track_jam_targets = number_of_track_jam_targets; this.high_density_track_jam = high_density_track_jam; this.pad4 = pad4; this.jamming_mode_sequence = jamming_mode_sequence; this.track_jam_targets = track_jam_targets; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("beam_data_length", 1, b'u', |e| self.beam_data_length.enc(e));
        e.fixed("beam_id_number", 1, b'u', |e| self.beam_id_number.enc(e));
        e.fixed("beam_parameter_index", 2, b'u', |e| self.beam_parameter_index.enc(e));
        e.at("fundamental_parameter_data", |e| self.fundamental_parameter_data.enc(e));
        e.fixed("beam_function", 1, b'u', |e| self.beam_function.enc(e));
        e.count(|e| e.fixed("number_of_track_jam_targets", 1, b'u', |e| self.number_of_track_jam_targets.enc(e)));
        e.fixed("high_density_track_jam", 1, b'u', |e| self.high_density_track_jam.enc(e));
        e.fixed("pad4", 1, b'u', |e| self.pad4.enc(e));
        e.fixed("jamming_mode_sequence", 4, b'u', |e| self.jamming_mode_sequence.enc(e));
        e.at("track_jam_targets", |e| self.track_jam_targets.enc(e));
    }
}
impl Model for ElectromagneticEmissionSystemData {
    fn gen_(g: &mut Gen) -> Self {
        let system_data_length = g.make();
        g.charge(1);
        let emissionspadding2 = g.make();
        let emitter_system = g.make();
        let location = g.make();
        let beam_data_records = g.list(255);
        let number_of_beams = g.cnt(Vec::len(&beam_data_records)) as _;
        let mut this = ElectromagneticEmissionSystemData::default(); this.system_data_length = system_data_length; this.number_of_beams = number_of_beams; this.emissionspadding2 = emissionspadding2; this.emitter_system = emitter_system; this.location = location; this.beam_data_records = beam_data_records; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("system_data_length", 1, b'u', |e| self.system_data_length.enc(e));
        e.count(|e| e.fixed("number_of_beams", 1, b'u', |e| self.number_of_beams.enc(e)));
        e.fixed("emissionspadding2", 2, b'u', |e| self.emissionspadding2.enc(e));
        e.at("emitter_system", |e| self.emitter_system.enc(e));
        e.at("location", |e| self.location.enc(e));
        e.at("beam_data_records", |e| self.beam_data_records.enc(e));
    }
}
impl Model for EmitterSystem {
    fn gen_(g: &mut Gen) -> Self {
        let emitter_name = g.make();
        let function = g.make();
        let emitter_id_number = g.make();
        let mut this = EmitterSystem::default(); this.emitter_name = emitter_name; this.function = function; this.emitter_id_number = emitter_id_number; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("emitter_name", 2, b'u', |e| self.emitter_name.enc(e));
        e.fixed("function", 1, b'u', |e| self.function.enc(e));
        e.fixed("emitter_id_number", 1, b'u', |e| self.emitter_id_number.enc(e));
    }
}
impl Model for EntityCoordinateVector {
    fn gen_(g: &mut Gen) -> Self {
        let x_coordinate = g.make();
        let y_coordinate = g.make();
        let z_coordinate = g.make();
        let mut this = EntityCoordinateVector::default(); this.x_coordinate = x_coordinate; this.y_coordinate = y_coordinate; this.z_coordinate = z_coordinate; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("x_coordinate", 4, b'f', |e| self.x_coordinate.enc(e));
        e.fixed("y_coordinate", 4, b'f', |e| self.y_coordinate.enc(e));
        e.fixed("z_coordinate", 4, b'f', |e| self.z_coordinate.enc(e));
    }
}
impl Model for EntityId {
    fn gen_(g: &mut Gen) -> Self {
        let simulation_address = g.make();
        let entity_id = g.make();
        let mut this = EntityId::default(); this.simulation_address = simulation_address; this.entity_id = entity_id; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("simulation_address", |e| self.simulation_address.enc(e));
        e.fixed("entity_id", 2, b'u', |e| self.entity_id.enc(e));
    }
}
impl Model for EntityType {
    fn gen_(g: &mut Gen) -> Self {
        let kind = g.make();
        let domain = g.make();
        let country = g.make();
        let category = g.make();
        let subcategory = g.make();
        let specific = g.make();
        let extra = g.make();
        let mut this = EntityType::default(); this.kind = kind; this.domain = domain; this.country = country; this.category = category; this.subcategory = subcategory; this.specific = specific; this.extra = extra; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("kind", 1, b'u', |e| self.kind.enc(e));
        e.fixed("domain", 1, b'u', |e| self.domain.enc(e));
        e.fixed("country", 2, b'u', |e| self.country.enc(e));
        e.fixed("category", 1, b'u', |e| self.category.enc(e));
        e.fixed("subcategory", 1, b'u', |e| self.subcategory.enc(e));
        e.fixed("specific", 1, b'u', |e| self.specific.enc(e));
        e.fixed("extra", 1, b'u', |e| self.extra.enc(e));
    }
}
impl Model for Environment {
    fn gen_(g: &mut Gen) -> Self {
        let environment_type = g.make();
        let length = g.make();
        let index = g.make();
        let padding = g.make();
        let mut this = Environment::default(); this.environment_type = environment_type; this.length = length; this.index = index; this.padding = padding; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("environment_type", 4, b'u', |e| self.environment_type.enc(e));
        e.fixed("length", 2, b'u', |e| self.length.enc(e));
        e.fixed("index", 1, b'u', |e| self.index.enc(e));
        e.fixed("padding", 1, b'u', |e| self.padding.enc(e));
    }
}
impl Model for EulerAngles {
    fn gen_(g: &mut Gen) -> Self {
        let psi = g.make();
        let theta = g.make();
        let phi = g.make();
        let mut this = EulerAngles::default(); this.psi = psi; this.theta = theta; this.phi = phi; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("psi", 4, b'f', |e| self.psi.enc(e));
        e.fixed("theta", 4, b'f', |e| self.theta.enc(e));
        e.fixed("phi", 4, b'f', |e| self.phi.enc(e));
    }
}
impl Model for EventId {
    fn gen_(g: &mut Gen) -> Self {
        let simulation_address = g.make();
        let event_identifier = g.make();
        let mut this = EventId::default(); this.simulation_address = simulation_address; this.event_identifier = event_identifier; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("simulation_address", |e| self.simulation_address.enc(e));
        e.fixed("event_identifier", 2, b'u', |e| self.event_identifier.enc(e));
    }
}
impl Model for FixedDatumRecord {
    fn gen_(g: &mut Gen) -> Self {
        let datum_id = g.make();
        let datum_value = g.make();
        FixedDatumRecord { datum_id, datum_value }
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("datum_id", 4, b'u', |e| self.datum_id.enc(e));
        e.fixed("datum_value", 4, b'u', |e| self.datum_value.enc(e));
    }
}
impl Model for FundamentalOperationalData {
    fn gen_(g: &mut Gen) -> Self {
        let system_status = g.make();
        let data_field1 = g.make();
        let information_layers = g.make();
        let data_field2 = g.make();
        let parameter1 = g.make();
        let parameter2 = g.make();
        let parameter3 = g.make();
        let parameter4 = g.make();
        let parameter5 = g.make();
        let parameter6 = g.make();
        let mut this = FundamentalOperationalData::default(); this.system_status = system_status; this.data_field1 = data_field1; this.information_layers = information_layers; this.data_field2 = data_field2; this.parameter1 = parameter1; this.parameter2 = parameter2; this.parameter3 = parameter3; this.parameter4 = parameter4; this.parameter5 = parameter5; this.parameter6 = parameter6; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("system_status", 1, b'u', |e| self.system_status.enc(e));
        e.fixed("data_field1", 1, b'u', |e| self.data_field1.enc(e));
        e.fixed("information_layers", 1, b'u', |e| self.information_layers.enc(e));
        e.fixed("data_field2", 1, b'u', |e| self.data_field2.enc(e));
        e.fixed("parameter1", 2, b'u', |e| self.parameter1.enc(e));
        e.fixed("parameter2", 2, b'u', |e| self.parameter2.enc(e));
        e.fixed("parameter3", 2, b'u', |e| self.parameter3.enc(e));
        e.fixed("parameter4", 2, b'u', |e| self.parameter4.enc(e));
        e.fixed("parameter5", 2, b'u', |e| self.parameter5.enc(e));
        e.fixed("parameter6", 2, b'u', |e| self.parameter6.enc(e));
    }
}
impl Model for FundamentalParameterData {
    fn gen_(g: &mut Gen) -> Self {
        let frequency = g.make();
        let frequency_range = g.make();
        let effective_radiated_power = g.make();
        let pulse_repetition_frequency = g.make();
        let pulse_width = g.make();
        let beam_azimuth_center = g.make();
        let beam_azimuth_sweep = g.make();
        let beam_elevation_center = g.make();
        let beam_elevation_sweep = g.make();
        let beam_sweep_sync = g.make();
        let mut this = FundamentalParameterData::default(); this.frequency = frequency; this.frequency_range = frequency_range; this.effective_radiated_power = effective_radiated_power; this.pulse_repetition_frequency = pulse_repetition_frequency; this.pulse_width = pulse_width; this.beam_azimuth_center = beam_azimuth_center; this.beam_azimuth_sweep = beam_azimuth_sweep; this.beam_elevation_center = beam_elevation_center; this.beam_elevation_sweep = beam_elevation_sweep; this.beam_sweep_sync = beam_sweep_sync; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("frequency", 4, b'f', |e| self.frequency.enc(e));
        e.fixed("frequency_range", 4, b'f', |e| self.frequency_range.enc(e));
        e.fixed("effective_radiated_power", 4, b'f', |e| self.effective_radiated_power.enc(e));
        e.fixed("pulse_repetition_frequency", 4, b'f', |e| self.pulse_repetition_frequency.enc(e));
        e.fixed("pulse_width", 4, b'f', |e| self.pulse_width.enc(e));
        e.fixed("beam_azimuth_center", 4, b'f', |e| self.beam_azimuth_center.enc(e));
        e.fixed("beam_azimuth_sweep", 4, b'f', |e| self.beam_azimuth_sweep.enc(e));
        e.fixed("beam_elevation_center", 4, b'f', |e| self.beam_elevation_center.enc(e));
        e.fixed("beam_elevation_sweep", 4, b'f', |e| self.beam_elevation_sweep.enc(e));
        e.fixed("beam_sweep_sync", 4, b'f', |e| self.beam_sweep_sync.enc(e));
    }
}
impl Model for IFFFundamentalParameterData {
    fn gen_(g: &mut Gen) -> Self {
        let erp = g.make();
        let frequency = g.make();
        let pgrf = g.make();
        let pulse_width = g.make();
        let burst_length = g.make();
        let applicable_modes = g.make();
        let system_specific_data = g.make();
        let mut this = IFFFundamentalParameterData::default(); this.erp = erp; this.frequency = frequency; this.pgrf = pgrf; this.pulse_width = pulse_width; this.burst_length = burst_length; this.applicable_modes = applicable_modes; this.system_specific_data = system_specific_data; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("erp", 4, b'f', |e| self.erp.enc(e));
        e.fixed("frequency", 4, b'f', |e| self.frequency.enc(e));
        e.fixed("pgrf", 4, b'f', |e| self.pgrf.enc(e));
        e.fixed("pulse_width", 4, b'f', |e| self.pulse_width.enc(e));
        e.fixed("burst_length", 4, b'u', |e| self.burst_length.enc(e));
        e.fixed("applicable_modes", 1, b'u', |e| self.applicable_modes.enc(e));
        e.at("system_specific_data", |e| self.system_specific_data.enc(e));
    }
}
impl Model for IntercomCommunicationsParameters {
    fn gen_(g: &mut Gen) -> Self {
        let record_type = g.make();
        let record_length = g.make();
        let record_specific_field = g.make();
        let mut this = IntercomCommunicationsParameters::default(); this.record_type = record_type; this.record_length = record_length; this.record_specific_field = record_specific_field; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("record_type", 2, b'u', |e| self.record_type.enc(e));
        e.fixed("record_length", 2, b'u', |e| self.record_length.enc(e));
        e.fixed("record_specific_field", 4, b'u', |e| self.record_specific_field.enc(e));
    }
}
impl Model for LayerHeader {
    fn gen_(g: &mut Gen) -> Self {
        let layer_number = g.make();
        let layer_specific_information = g.make();
        let length = g.make();
        let mut this = LayerHeader::default(); this.layer_number = layer_number; this.layer_specific_information = layer_specific_information; this.length = length; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("layer_number", 1, b'u', |e| self.layer_number.enc(e));
        e.fixed("layer_specific_information", 1, b'u', |e| self.layer_specific_information.enc(e));
        e.fixed("length", 2, b'u', |e| self.length.enc(e));
    }
}
impl Model for LinearAcceleration {
    fn gen_(g: &mut Gen) -> Self {
        let first_vector_component = g.make();
        let second_vector_component = g.make();
        let third_vector_component = g.make();
        let mut this = LinearAcceleration::default(); this.first_vector_component = first_vector_component; this.second_vector_component = second_vector_component; this.third_vector_component = third_vector_component; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("first_vector_component", 4, b'f', |e| self.first_vector_component.enc(e));
        e.fixed("second_vector_component", 4, b'f', |e| self.second_vector_component.enc(e));
        e.fixed("third_vector_component", 4, b'f', |e| self.third_vector_component.enc(e));
    }
}
impl Model for LinearVelocity {
    fn gen_(g: &mut Gen) -> Self {
        let first_vector_component = g.make();
        let second_vector_component = g.make();
        let third_vector_component = g.make();
        let mut this = LinearVelocity::default(); this.first_vector_component = first_vector_component; this.second_vector_component = second_vector_component; this.third_vector_component = third_vector_component; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("first_vector_component", 4, b'f', |e| self.first_vector_component.enc(e));
        e.fixed("second_vector_component", 4, b'f', |e| self.second_vector_component.enc(e));
        e.fixed("third_vector_component", 4, b'f', |e| self.third_vector_component.enc(e));
    }
}
impl Model for MinefieldIdentifier {
    fn gen_(g: &mut Gen) -> Self {
        let simulation_address = g.make();
        let minefield_number = g.make();
        let mut this = MinefieldIdentifier::default(); this.simulation_address = simulation_address; this.minefield_number = minefield_number; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("simulation_address", |e| self.simulation_address.enc(e));
        e.fixed("minefield_number", 2, b'u', |e| self.minefield_number.enc(e));
    }
}
impl Model for ModulationType {
    fn gen_(g: &mut Gen) -> Self {
        let spread_spectrum = g.make();
        let major = g.make();
        let detail = g.make();
        let system = g.make();
        let mut this = ModulationType::default(); this.spread_spectrum = spread_spectrum; this.major = major; this.detail = detail; this.system = system; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("spread_spectrum", 2, b'u', |e| self.spread_spectrum.enc(e));
        e.fixed("major", 2, b'u', |e| self.major.enc(e));
        e.fixed("detail", 2, b'u', |e| self.detail.enc(e));
        e.fixed("system", 2, b'u', |e| self.system.enc(e));
    }
}
impl Model for MunitionDescriptor {
    fn gen_(g: &mut Gen) -> Self {
        let munition_type = g.make();
        let warhead = g.make();
        let fuse = g.make();
        let quantity = g.make();
        let rate = g.make();
        let mut this = MunitionDescriptor::default(); this.munition_type = munition_type; this.warhead = warhead; this.fuse = fuse; this.quantity = quantity; this.rate = rate; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("munition_type", |e| self.munition_type.enc(e));
        e.fixed("warhead", 2, b'u', |e| self.warhead.enc(e));
        e.fixed("fuse", 2, b'u', |e| self.fuse.enc(e));
        e.fixed("quantity", 2, b'u', |e| self.quantity.enc(e));
        e.fixed("rate", 2, b'u', |e| self.rate.enc(e));
    }
}
impl Model for NamedLocation {
    fn gen_(g: &mut Gen) -> Self {
        let station_name = g.make();
        let station_number = g.make();
        let mut this = NamedLocation::default(); this.station_name = station_name; this.station_number = station_number; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("station_name", 2, b'u', |e| self.station_name.enc(e));
        e.fixed("station_number", 2, b'u', |e| self.station_number.enc(e));
    }
}
impl Model for ObjectIdentifier {
    fn gen_(g: &mut Gen) -> Self {
        let simulation_address = g.make();
        let object_number = g.make();
        let mut this = ObjectIdentifier::default(); this.simulation_address = simulation_address; this.object_number = object_number; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("simulation_address", |e| self.simulation_address.enc(e));
        e.fixed("object_number", 2, b'u', |e| self.object_number.enc(e));
    }
}
impl Model for ObjectType {
    fn gen_(g: &mut Gen) -> Self {
        let domain = g.make();
        let object_kind = g.make();
        let category = g.make();
        let subcategory = g.make();
        let mut this = ObjectType::default(); this.domain = domain; this.object_kind = object_kind; this.category = category; this.subcategory = subcategory; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("domain", 1, b'u', |e| self.domain.enc(e));
        e.fixed("object_kind", 1, b'u', |e| self.object_kind.enc(e));
        e.fixed("category", 1, b'u', |e| self.category.enc(e));
        e.fixed("subcategory", 1, b'u', |e| self.subcategory.enc(e));
    }
}
impl Model for Point {
    fn gen_(g: &mut Gen) -> Self {
        let x = g.make();
        let y = g.make();
        let mut this = Point::default(); this.x = x; this.y = y; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("x", 4, b'f', |e| self.x.enc(e));
        e.fixed("y", 4, b'f', |e| self.y.enc(e));
    }
}
impl Model for PropulsionSystemData {
    fn gen_(g: &mut Gen) -> Self {
        let power_setting = g.make();
        let engine_rpm = g.make();
        let mut this = PropulsionSystemData::default(); this.power_setting = power_setting; this.engine_rpm = engine_rpm; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("power_setting", 4, b'f', |e| self.power_setting.enc(e));
        e.fixed("engine_rpm", 4, b'f', |e| self.engine_rpm.enc(e));
    }
}
impl Model for RadioEntityType {
    fn gen_(g: &mut Gen) -> Self {
        let entity_kind = g.make();
        let domain = g.make();
        let country = g.make();
        let category = g.make();
        let nomenclature_version = g.make();
        let nomenclature = g.make();
        let mut this = RadioEntityType::default(); this.entity_kind = entity_kind; this.domain = domain; this.country = country; this.category = category; this.nomenclature_version = nomenclature_version; this.nomenclature = nomenclature; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("entity_kind", 1, b'u', |e| self.entity_kind.enc(e));
        e.fixed("domain", 1, b'u', |e| self.domain.enc(e));
        e.fixed("country", 2, b'u', |e| self.country.enc(e));
        e.fixed("category", 1, b'u', |e| self.category.enc(e));
        e.fixed("nomenclature_version", 1, b'u', |e| self.nomenclature_version.enc(e));
        e.fixed("nomenclature", 2, b'u', |e| self.nomenclature.enc(e));
    }
}
impl Model for RecordSpecification {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(4);
        let record_sets = g.list(65535);
        let number_of_record_sets = g.cnt(Vec::len(&record_sets)) as _;
        let mut this = RecordSpecification::default(); this.number_of_record_sets = number_of_record_sets; this.record_sets = record_sets; this
    }
    fn enc(&self, e: &mut Enc) {
        e.count(|e| e.fixed("number_of_record_sets", 4, b'u', |e| self.number_of_record_sets.enc(e)));
        e.at("record_sets", |e| self.record_sets.enc(e));
    }
}
impl Model for Relationship {
    fn gen_(g: &mut Gen) -> Self {
        let nature = g.make();
        let position = g.make();
        let mut this = Relationship::default(); this.nature = nature; this.position = position; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("nature", 2, b'u', |e| self.nature.enc(e));
        e.fixed("position", 2, b'u', |e| self.position.enc(e));
    }
}
impl Model for SecondaryOperationalData {
    fn gen_(g: &mut Gen) -> Self {
        let operational_data1 = g.make();
        let operational_data2 = g.make();
        let number_of_iff_fundamental_parameter_records = g.make();
        let mut this = SecondaryOperationalData::default(); this.operational_data1 = operational_data1; this.operational_data2 = operational_data2; this.number_of_iff_fundamental_parameter_records = number_of_iff_fundamental_parameter_records; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("operational_data1", 1, b'u', |e| self.operational_data1.enc(e));
        e.fixed("operational_data2", 1, b'u', |e| self.operational_data2.enc(e));
        e.fixed("number_of_iff_fundamental_parameter_records", 2, b'u', |e| self.number_of_iff_fundamental_parameter_records.enc(e));
    }
}
impl Model for ShaftRPMs {
    fn gen_(g: &mut Gen) -> Self {
        let current_shaft_rpms = g.make();
        let ordered_shaft_rpms = g.make();
        let shaft_rpm_rate_of_change = g.make();
        let mut this = ShaftRPMs::default(); this.current_shaft_rpms = current_shaft_rpms; this.ordered_shaft_rpms = ordered_shaft_rpms; this.shaft_rpm_rate_of_change = shaft_rpm_rate_of_change; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("current_shaft_rpms", 2, b'i', |e| self.current_shaft_rpms.enc(e));
        e.fixed("ordered_shaft_rpms", 2, b'i', |e| self.ordered_shaft_rpms.enc(e));
        e.fixed("shaft_rpm_rate_of_change", 4, b'i', |e| self.shaft_rpm_rate_of_change.enc(e));
    }
}
impl Model for SimulationAddress {
    fn gen_(g: &mut Gen) -> Self {
        let site_id = g.make();
        let application_id = g.make();
        let mut this = SimulationAddress::default(); this.site_id = site_id; this.application_id = application_id; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("site_id", 2, b'u', |e| self.site_id.enc(e));
        e.fixed("application_id", 2, b'u', |e| self.application_id.enc(e));
    }
}
impl Model for SimulationIdentifier {
    fn gen_(g: &mut Gen) -> Self {
        let simulation_address = g.make();
        let reference_number = g.make();
        let mut this = SimulationIdentifier::default(); this.simulation_address = simulation_address; this.reference_number = reference_number; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("simulation_address", |e| self.simulation_address.enc(e));
        e.fixed("reference_number", 2, b'u', |e| self.reference_number.enc(e));
    }
}
impl Model for StandardVariableRecords {
    fn gen_(g: &mut Gen) -> Self {
        let record_type = g.make();
        g.charge(2);
        let record_specific_fields = g.list(65535);
        let record_length = g.cnt(Vec::len(&record_specific_fields)) as _;
        let mut this = StandardVariableRecords::default(); this.record_type = record_type; this.record_length = record_length; this.record_specific_fields = record_specific_fields; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("record_type", 4, b'u', |e| self.record_type.enc(e));
        e.count(|e| e.fixed("record_length", 2, b'u', |e| self.record_length.enc(e)));
        e.at("record_specific_fields", |e| self.record_specific_fields.enc(e));
    }
}
impl Model for StandardVariableSpecification {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(2);
        let standard_variable_records = g.list(65535);
        let number_of_standard_variable_records = g.cnt(Vec::len(&standard_variable_records)) as _;
        let mut this = StandardVariableSpecification::default(); this.number_of_standard_variable_records = number_of_standard_variable_records; this.standard_variable_records = standard_variable_records; this
    }
    fn enc(&self, e: &mut Enc) {
        e.count(|e| e.fixed("number_of_standard_variable_records", 2, b'u', |e| self.number_of_standard_variable_records.enc(e)));
        e.at("standard_variable_records", |e| self.standard_variable_records.enc(e));
    }
}
impl Model for SupplyQuantity {
    fn gen_(g: &mut Gen) -> Self {
        let supply_type = g.make();
        let quantity = g.make();
        let mut this = SupplyQuantity::default(); this.supply_type = supply_type; this.quantity = quantity; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("supply_type", |e| self.supply_type.enc(e));
        e.fixed("quantity", 4, b'f', |e| self.quantity.enc(e));
    }
}
impl Model for SystemId {
    fn gen_(g: &mut Gen) -> Self {
        let system_type = g.make();
        let system_name = g.make();
        let system_mode = g.make();
        let change_options = g.make();
        let mut this = SystemId::default(); this.system_type = system_type; this.system_name = system_name; this.system_mode = system_mode; this.change_options = change_options; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("system_type", 2, b'u', |e| self.system_type.enc(e));
        e.fixed("system_name", 2, b'u', |e| self.system_name.enc(e));
        e.fixed("system_mode", 1, b'u', |e| self.system_mode.enc(e));
        e.fixed("change_options", 1, b'u', |e| self.change_options.enc(e));
    }
}
impl Model for TrackJamTarget {
    fn gen_(g: &mut Gen) -> Self {
        let track_jam = g.make();
        let emitter_id = g.make();
        let beam_id = g.make();
        let mut this = TrackJamTarget::default(); this.track_jam = track_jam; this.emitter_id = emitter_id; this.beam_id = beam_id; this
    }
    fn enc(&self, e: &mut Enc) {
        e.at("track_jam", |e| self.track_jam.enc(e));
        e.fixed("emitter_id", 1, b'u', |e| self.emitter_id.enc(e));
        e.fixed("beam_id", 1, b'u', |e| self.beam_id.enc(e));
    }
}
impl Model for VariableParameter {
    fn gen_(g: &mut Gen) -> Self {
        let record_type = g.make();
        let variable_parameter_field1 = g.make();
        let variable_parameter_field2 = g.make();
        let variable_parameter_field3 = g.make();
        let variable_parameter_field4 = g.make();
        let mut this = VariableParameter::default(); this.record_type = record_type; this.variable_parameter_field1 = variable_parameter_field1; this.variable_parameter_field2 = variable_parameter_field2; this.variable_parameter_field3 = variable_parameter_field3; this.variable_parameter_field4 = variable_parameter_field4; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("record_type", 1, b'u', |e| self.record_type.enc(e));
        e.fixed("variable_parameter_field1", 8, b'f', |e| self.variable_parameter_field1.enc(e));
        e.fixed("variable_parameter_field2", 4, b'u', |e| self.variable_parameter_field2.enc(e));
        e.fixed("variable_parameter_field3", 2, b'u', |e| self.variable_parameter_field3.enc(e));
        e.fixed("variable_parameter_field4", 1, b'u', |e| self.variable_parameter_field4.enc(e));
    }
}
impl Model for VariableTransmitterParameters {
    fn gen_(g: &mut Gen) -> Self {
        let record_type = g.make();
        g.charge(2);
        let record_specific_fields = g.list(65535);
        let record_length = g.cnt(Vec::len(&record_specific_fields)) as _;
        let mut this = VariableTransmitterParameters::default(); this.record_type = record_type; this.record_length = record_length; this.record_specific_fields = record_specific_fields; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("record_type", 4, b'u', |e| self.record_type.enc(e));
        e.count(|e| e.fixed("record_length", 2, b'u', |e| self.record_length.enc(e)));
        e.at("record_specific_fields", |e| self.record_specific_fields.enc(e));
    }
}
impl Model for Vector3Double {
    fn gen_(g: &mut Gen) -> Self {
        let x = g.make();
        let y = g.make();
        let z = g.make();
        let mut this = Vector3Double::default(); this.x = x; this.y = y; this.z = z; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("x", 8, b'f', |e| self.x.enc(e));
        e.fixed("y", 8, b'f', |e| self.y.enc(e));
        e.fixed("z", 8, b'f', |e| self.z.enc(e));
    }
}
impl Model for Vector3Float {
    fn gen_(g: &mut Gen) -> Self {
        let x = g.make();
        let y = g.make();
        let z = g.make();
        let mut this = Vector3Float::default(); this.x = x; this.y = y; this.z = z; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("x", 4, b'f', |e| self.x.enc(e));
        e.fixed("y", 4, b'f', |e| self.y.enc(e));
        e.fixed("z", 4, b'f', |e| self.z.enc(e));
    }
}
impl Model for VectoringNozzleSystemData {
    fn gen_(g: &mut Gen) -> Self {
        let horizontal_deflection_angle = g.make();
        let vertical_deflection_angle = g.make();
        let mut this = VectoringNozzleSystemData::default(); this.horizontal_deflection_angle = horizontal_deflection_angle; this.vertical_deflection_angle = vertical_deflection_angle; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("horizontal_deflection_angle", 4, b'f', |e| self.horizontal_deflection_angle.enc(e));
        e.fixed("vertical_deflection_angle", 4, b'f', |e| self.vertical_deflection_angle.enc(e));
    }
}
impl Model for VelocityVector {
    fn gen_(g: &mut Gen) -> Self {
        let first_vector_component = g.make();
        let second_vector_component = g.make();
        let third_vector_component = g.make();
        let mut this = VelocityVector::default(); this.first_vector_component = first_vector_component; this.second_vector_component = second_vector_component; this.third_vector_component = third_vector_component; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("first_vector_component", 4, b'f', |e| self.first_vector_component.enc(e));
        e.fixed("second_vector_component", 4, b'f', |e| self.second_vector_component.enc(e));
        e.fixed("third_vector_component", 4, b'f', |e| self.third_vector_component.enc(e));
    }
}
impl Model for WorldCoordinate {
    fn gen_(g: &mut Gen) -> Self {
        let x = g.make();
        let y = g.make();
        let z = g.make();
        let mut this = WorldCoordinate::default(); this.x = x; this.y = y; this.z = z; this
    }
    fn enc(&self, e: &mut Enc) {
        e.fixed("x", 8, b'f', |e| self.x.enc(e));
        e.fixed("y", 8, b'f', |e| self.y.enc(e));
        e.fixed("z", 8, b'f', |e| self.z.enc(e));
    }
}
impl ModelPdu for EntityStatePdu {
    fn kind(&self) -> usize { 0 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.entity_id);
        g.put(&mut self.force_id);
        g.charge(1);
        g.put(&mut self.entity_type);
        g.put(&mut self.alternative_entity_type);
        g.put(&mut self.entity_linear_velocity);
        g.put(&mut self.entity_location);
        g.put(&mut self.entity_orientation);
        g.put(&mut self.entity_appearance);
        g.put(&mut self.dead_reckoning_parameters);
        g.put(&mut self.entity_marking);
        g.put(&mut self.entity_capabilities);
        g.put_list(&mut self.articulation_parameter, 255);
        self.number_of_articulation_parameters = g.cnt(self.articulation_parameter.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.count(|e| e.fixed("number_of_articulation_parameters", 1, b'u', |e| self.number_of_articulation_parameters.enc(e)));
        e.at("entity_type", |e| self.entity_type.enc(e));
        e.at("alternative_entity_type", |e| self.alternative_entity_type.enc(e));
        e.at("entity_linear_velocity", |e| self.entity_linear_velocity.enc(e));
        e.at("entity_location", |e| self.entity_location.enc(e));
        e.at("entity_orientation", |e| self.entity_orientation.enc(e));
        e.fixed("entity_appearance", 4, b'u', |e| self.entity_appearance.enc(e));
        e.at("dead_reckoning_parameters", |e| self.dead_reckoning_parameters.enc(e));
        e.at("entity_marking", |e| self.entity_marking.enc(e));
        e.fixed("entity_capabilities", 4, b'u', |e| self.entity_capabilities.enc(e));
        e.at("articulation_parameter", |e| self.articulation_parameter.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for FirePdu {
    fn kind(&self) -> usize { 1 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.firing_entity_id);
        g.put(&mut self.target_entity_id);
        g.put(&mut self.munition_expendable_id);
        g.put(&mut self.event_id);
        g.put(&mut self.fire_mission_index);
        g.put(&mut self.location_in_world_coordinates);
        g.put(&mut self.descriptor);
        g.put(&mut self.velocity);
        g.put(&mut self.range);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("firing_entity_id", |e| self.firing_entity_id.enc(e));
        e.at("target_entity_id", |e| self.target_entity_id.enc(e));
        e.at("munition_expendable_id", |e| self.munition_expendable_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.fixed("fire_mission_index", 4, b'u', |e| self.fire_mission_index.enc(e));
        e.at("location_in_world_coordinates", |e| self.location_in_world_coordinates.enc(e));
        e.at("descriptor", |e| self.descriptor.enc(e));
        e.at("velocity", |e| self.velocity.enc(e));
        e.fixed("range", 4, b'f', |e| self.range.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DetonationPdu {
    fn kind(&self) -> usize { 2 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.firing_entity_id);
        g.put(&mut self.target_entity_id);
        g.put(&mut self.exploding_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.velocity);
        g.put(&mut self.location_in_world_coordinates);
        g.put(&mut self.descriptor);
        g.put(&mut self.location_in_entitys_coordinates);
        g.put(&mut self.detonation_result);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.variable_parameters, 255);
        self.number_of_variable_parameters = g.cnt(self.variable_parameters.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("firing_entity_id", |e| self.firing_entity_id.enc(e));
        e.at("target_entity_id", |e| self.target_entity_id.enc(e));
        e.at("exploding_entity_id", |e| self.exploding_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.at("velocity", |e| self.velocity.enc(e));
        e.at("location_in_world_coordinates", |e| self.location_in_world_coordinates.enc(e));
        e.at("descriptor", |e| self.descriptor.enc(e));
        e.at("location_in_entitys_coordinates", |e| self.location_in_entitys_coordinates.enc(e));
        e.fixed("detonation_result", 1, b'u', |e| self.detonation_result.enc(e));
        e.count(|e| e.fixed("number_of_variable_parameters", 1, b'u', |e| self.number_of_variable_parameters.enc(e)));
        e.pad(2);
        e.at("variable_parameters", |e| self.variable_parameters.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CollisionPdu {
    fn kind(&self) -> usize { 3 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.issuing_entity_id);
        g.put(&mut self.colliding_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.collision_type);
        g.charge(1);
        g.put(&mut self.velocity);
        g.put(&mut self.mass);
        g.put(&mut self.location_wrt_entity);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("issuing_entity_id", |e| self.issuing_entity_id.enc(e));
        e.at("colliding_entity_id", |e| self.colliding_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.fixed("collision_type", 1, b'u', |e| self.collision_type.enc(e));
        e.pad(1);
        e.at("velocity", |e| self.velocity.enc(e));
        e.fixed("mass", 4, b'f', |e| self.mass.enc(e));
        e.at("location_wrt_entity", |e| self.location_wrt_entity.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ServiceRequestPdu {
    fn kind(&self) -> usize { 4 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.servicing_entity_id);
        g.put(&mut self.service_type_requested);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.supplies, 255);
        self.number_of_supply_types = g.cnt(self.supplies.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("servicing_entity_id", |e| self.servicing_entity_id.enc(e));
        e.fixed("service_type_requested", 1, b'u', |e| self.service_type_requested.enc(e));
        e.count(|e| e.fixed("number_of_supply_types", 1, b'u', |e| self.number_of_supply_types.enc(e)));
        e.pad(2);
        e.at("supplies", |e| self.supplies.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ResupplyOfferPdu {
    fn kind(&self) -> usize { 5 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.supplying_entity_id);
        g.charge(1);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.supplies, 255);
        self.number_of_supply_types = g.cnt(self.supplies.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("supplying_entity_id", |e| self.supplying_entity_id.enc(e));
        e.count(|e| e.fixed("number_of_supply_types", 1, b'u', |e| self.number_of_supply_types.enc(e)));
        e.pad(1);
        e.pad(2);
        e.at("supplies", |e| self.supplies.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ResupplyReceivedPdu {
    fn kind(&self) -> usize { 6 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.supplying_entity_id);
        g.charge(1);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.supplies, 255);
        self.number_of_supply_types = g.cnt(self.supplies.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("supplying_entity_id", |e| self.supplying_entity_id.enc(e));
        e.count(|e| e.fixed("number_of_supply_types", 1, b'u', |e| self.number_of_supply_types.enc(e)));
        e.pad(1);
        e.pad(2);
        e.at("supplies", |e| self.supplies.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ResupplyCancelPdu {
    fn kind(&self) -> usize { 7 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.supplying_entity_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("supplying_entity_id", |e| self.supplying_entity_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for RepairCompletePdu {
    fn kind(&self) -> usize { 8 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.repairing_entity_id);
        g.put(&mut self.repair);
        g.charge(2);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("repairing_entity_id", |e| self.repairing_entity_id.enc(e));
        e.fixed("repair", 2, b'u', |e| self.repair.enc(e));
        e.pad(2);
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for RepairResponsePdu {
    fn kind(&self) -> usize { 9 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.repairing_entity_id);
        g.put(&mut self.repair_result);
        g.charge(1);
        g.charge(2);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("repairing_entity_id", |e| self.repairing_entity_id.enc(e));
        e.fixed("repair_result", 1, b'u', |e| self.repair_result.enc(e));
        e.pad(1);
        e.pad(2);
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CreateEntityPdu {
    fn kind(&self) -> usize { 10 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for RemoveEntityPdu {
    fn kind(&self) -> usize { 11 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for StartResumePdu {
    fn kind(&self) -> usize { 12 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.real_world_time);
        g.put(&mut self.simulation_time);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("real_world_time", |e| self.real_world_time.enc(e));
        e.at("simulation_time", |e| self.simulation_time.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for StopFreezePdu {
    fn kind(&self) -> usize { 13 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.real_world_time);
        g.put(&mut self.reason);
        g.put(&mut self.frozen_behavior);
        g.charge(2);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("real_world_time", |e| self.real_world_time.enc(e));
        e.fixed("reason", 1, b'u', |e| self.reason.enc(e));
        e.at("frozen_behavior", |e| self.frozen_behavior.enc(e));
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for AcknowledgePdu {
    fn kind(&self) -> usize { 14 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.acknowledge_flag);
        g.put(&mut self.response_flag);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("acknowledge_flag", 2, b'u', |e| self.acknowledge_flag.enc(e));
        e.fixed("response_flag", 2, b'u', |e| self.response_flag.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ActionRequestPdu {
    fn kind(&self) -> usize { 15 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.action_id);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("action_id", 4, b'u', |e| self.action_id.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ActionResponsePdu {
    fn kind(&self) -> usize { 16 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.request_status);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("request_status", 4, b'u', |e| self.request_status.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DataQueryPdu {
    fn kind(&self) -> usize { 17 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.time_interval);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("time_interval", 4, b'u', |e| self.time_interval.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for SetDataPdu {
    fn kind(&self) -> usize { 18 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.charge(4);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.pad(4);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DataPdu {
    fn kind(&self) -> usize { 19 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.charge(4);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.pad(4);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for EventReportPdu {
    fn kind(&self) -> usize { 20 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.event_type);
        g.charge(4);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("event_type", 4, b'u', |e| self.event_type.enc(e));
        e.pad(4);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CommentPdu {
    fn kind(&self) -> usize { 21 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ElectromagneticEmissionsPdu {
    fn kind(&self) -> usize { 22 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.emitting_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.state_update_indicator);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.systems, 255);
        self.number_of_systems = g.cnt(self.systems.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("emitting_entity_id", |e| self.emitting_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.fixed("state_update_indicator", 1, b'u', |e| self.state_update_indicator.enc(e));
        e.count(|e| e.fixed("number_of_systems", 1, b'u', |e| self.number_of_systems.enc(e)));
        e.pad(2);
        e.at("systems", |e| self.systems.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DesignatorPdu {
    fn kind(&self) -> usize { 23 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.designating_entity_id);
        g.put(&mut self.code_name);
        g.put(&mut self.designated_entity_id);
        g.put(&mut self.designator_code);
        g.put(&mut self.designator_power);
        g.put(&mut self.designator_wavelength);
        g.put(&mut self.designator_spot_wrt_designated);
        g.put(&mut self.designator_spot_location);
        g.put(&mut self.dead_reckoning_algorithm);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.entity_linear_acceleration);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("designating_entity_id", |e| self.designating_entity_id.enc(e));
        e.fixed("code_name", 2, b'u', |e| self.code_name.enc(e));
        e.at("designated_entity_id", |e| self.designated_entity_id.enc(e));
        e.fixed("designator_code", 2, b'u', |e| self.designator_code.enc(e));
        e.fixed("designator_power", 4, b'f', |e| self.designator_power.enc(e));
        e.fixed("designator_wavelength", 4, b'f', |e| self.designator_wavelength.enc(e));
        e.at("designator_spot_wrt_designated", |e| self.designator_spot_wrt_designated.enc(e));
        e.at("designator_spot_location", |e| self.designator_spot_location.enc(e));
        e.fixed("dead_reckoning_algorithm", 1, b'u', |e| self.dead_reckoning_algorithm.enc(e));
        e.pad(1);
        e.pad(2);
        e.at("entity_linear_acceleration", |e| self.entity_linear_acceleration.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for TransmitterPdu {
    fn kind(&self) -> usize { 24 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.entity_id);
        g.put(&mut self.radio_id);
        g.put(&mut self.radio_entity_type);
        g.put(&mut self.transmit_state);
        g.put(&mut self.input_source);
        g.charge(2);
        g.put(&mut self.antenna_location);
        g.put(&mut self.relative_antenna_location);
        g.put(&mut self.antenna_pattern_type);
        g.charge(2);
        g.put(&mut self.frequency);
        g.put(&mut self.transmit_frequency_bandwidth);
        g.put(&mut self.power);
        g.put(&mut self.modulation_type);
        g.put(&mut self.crypto_system);
        g.put(&mut self.crypto_key_id);
        g.charge(1);
        g.charge(1);
        g.charge(2);
        let len = g.small_len(255); self.modulation_parameter_length = len as _;
        self.modulation_parameters = if len == 0 { None } else { ModulationParameters::deserialize(&mut g.octets(len).as_slice(), len as u8) };
        let len = g.small_len(2000); self.antenna_pattern_length = len as _;
        self.antenna_pattern = if len == 0 { None } else { AntennaPattern::deserialize(&mut g.octets(len).as_slice(), len as u16) };
        g.put_list(&mut self.variable_transmitter_parameters, 65535);
        self.number_of_variable_transmitter_parameters_records = g.cnt(self.variable_transmitter_parameters.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.fixed("radio_id", 2, b'u', |e| self.radio_id.enc(e));
        e.at("radio_entity_type", |e| self.radio_entity_type.enc(e));
        e.fixed("transmit_state", 1, b'u', |e| self.transmit_state.enc(e));
        e.fixed("input_source", 1, b'u', |e| self.input_source.enc(e));
        e.count(|e| e.fixed("number_of_variable_transmitter_parameters_records", 2, b'u', |e| self.number_of_variable_transmitter_parameters_records.enc(e)));
        e.at("antenna_location", |e| self.antenna_location.enc(e));
        e.at("relative_antenna_location", |e| self.relative_antenna_location.enc(e));
        e.fixed("antenna_pattern_type", 2, b'u', |e| self.antenna_pattern_type.enc(e));
        e.count(|e| e.fixed("antenna_pattern_length", 2, b'u', |e| self.antenna_pattern_length.enc(e)));
        e.fixed("frequency", 8, b'u', |e| self.frequency.enc(e));
        e.fixed("transmit_frequency_bandwidth", 4, b'f', |e| self.transmit_frequency_bandwidth.enc(e));
        e.fixed("power", 4, b'f', |e| self.power.enc(e));
        e.at("modulation_type", |e| self.modulation_type.enc(e));
        e.fixed("crypto_system", 2, b'u', |e| self.crypto_system.enc(e));
        e.fixed("crypto_key_id", 2, b'u', |e| self.crypto_key_id.enc(e));
        e.count(|e| e.fixed("modulation_parameter_length", 1, b'u', |e| self.modulation_parameter_length.enc(e)));
        e.pad(1);
        e.pad(2);
        e.at("modulation_parameters", |e| self.modulation_parameters.enc(e));
        e.at("antenna_pattern", |e| self.antenna_pattern.enc(e));
        e.at("variable_transmitter_parameters", |e| self.variable_transmitter_parameters.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for SignalPdu {
    fn kind(&self) -> usize { 25 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.entity_id);
        g.put(&mut self.radio_id);
        g.put(&mut self.encoding_scheme);
        g.put(&mut self.tdl_type);
        g.put(&mut self.sample_rate);
        g.charge(2);
        g.put(&mut self.samples);
        self.data_length = g.bit_length(65535) as _;
        self.data = g.octets((self.data_length as usize).div_ceil(8));
        self.data_length = g.cnt(self.data_length as usize) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.fixed("radio_id", 2, b'u', |e| self.radio_id.enc(e));
        e.fixed("encoding_scheme", 2, b'u', |e| self.encoding_scheme.enc(e));
        e.fixed("tdl_type", 2, b'u', |e| self.tdl_type.enc(e));
        e.fixed("sample_rate", 4, b'u', |e| self.sample_rate.enc(e));
        e.count(|e| e.fixed("data_length", 2, b'u', |e| self.data_length.enc(e)));
        e.fixed("samples", 2, b'u', |e| self.samples.enc(e));
        e.at("data", |e| self.data.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ReceiverPdu {
    fn kind(&self) -> usize { 26 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.entity_id);
        g.put(&mut self.radio_id);
        g.put(&mut self.receiver_state);
        g.charge(2);
        g.put(&mut self.received_power);
        g.put(&mut self.transmitter_radio_reference_id);
        g.put(&mut self.transmitter_radio_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.fixed("radio_id", 2, b'u', |e| self.radio_id.enc(e));
        e.fixed("receiver_state", 2, b'u', |e| self.receiver_state.enc(e));
        e.pad(2);
        e.fixed("received_power", 4, b'f', |e| self.received_power.enc(e));
        e.at("transmitter_radio_reference_id", |e| self.transmitter_radio_reference_id.enc(e));
        e.fixed("transmitter_radio_id", 2, b'u', |e| self.transmitter_radio_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for IFFPdu {
    fn kind(&self) -> usize { 27 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.emitting_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.relative_antenna_location);
        g.put(&mut self.system_id);
        g.put(&mut self.system_designator);
        g.put(&mut self.system_specific_data);
        g.put(&mut self.fundamental_operational_data);
        g.put(&mut self.layer_header);
        g.put(&mut self.beam_data);
        g.put(&mut self.secondary_operational_data);
        g.put_list(&mut self.iff_parameters, 65535);
        self.secondary_operational_data.number_of_iff_fundamental_parameter_records = g.cnt(self.iff_parameters.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("emitting_entity_id", |e| self.emitting_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.at("relative_antenna_location", |e| self.relative_antenna_location.enc(e));
        e.at("system_id", |e| self.system_id.enc(e));
        e.fixed("system_designator", 1, b'u', |e| self.system_designator.enc(e));
        e.fixed("system_specific_data", 1, b'u', |e| self.system_specific_data.enc(e));
        e.at("fundamental_operational_data", |e| self.fundamental_operational_data.enc(e));
        e.at("layer_header", |e| self.layer_header.enc(e));
        e.at("beam_data", |e| self.beam_data.enc(e));
        e.at("secondary_operational_data", |e| self.secondary_operational_data.enc(e));
        e.at("iff_parameters", |e| self.iff_parameters.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for UnderwaterAcousticPdu {
    fn kind(&self) -> usize { 28 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.emitting_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.state_change_update_indicator);
        g.charge(1);
        g.put(&mut self.passive_parameter_index);
        g.put(&mut self.propulsion_plant_configuration);
        g.charge(1);
        g.charge(1);
        g.charge(1);
        g.put_list(&mut self.shaft_rpms, 255);
        g.put_list(&mut self.apa_data, 255);
        g.put_list(&mut self.emitter_systems, 255);
        self.number_of_shafts = g.cnt(self.shaft_rpms.len()) as _;
        self.number_of_apas = g.cnt(self.apa_data.len()) as _;
        self.number_of_ua_emitter_systems = g.cnt(self.emitter_systems.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("emitting_entity_id", |e| self.emitting_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.fixed("state_change_update_indicator", 1, b'u', |e| self.state_change_update_indicator.enc(e));
        e.pad(1);
        e.fixed("passive_parameter_index", 2, b'u', |e| self.passive_parameter_index.enc(e));
        e.fixed("propulsion_plant_configuration", 1, b'u', |e| self.propulsion_plant_configuration.enc(e));
        e.count(|e| e.fixed("number_of_shafts", 1, b'u', |e| self.number_of_shafts.enc(e)));
        e.count(|e| e.fixed("number_of_apas", 1, b'u', |e| self.number_of_apas.enc(e)));
        e.count(|e| e.fixed("number_of_ua_emitter_systems", 1, b'u', |e| self.number_of_ua_emitter_systems.enc(e)));
        e.at("shaft_rpms", |e| self.shaft_rpms.enc(e));
        e.at("apa_data", |e| self.apa_data.enc(e));
        e.at("emitter_systems", |e| self.emitter_systems.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for SupplementalEmissionPdu {
    fn kind(&self) -> usize { 29 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.infrared_signature_representation_index);
        g.put(&mut self.acoustic_signature_representation_index);
        g.put(&mut self.radar_cross_section_signature_representation_index);
        g.charge(2);
        g.charge(2);
        g.put_list(&mut self.propulsion_system_data, 65535);
        g.put_list(&mut self.vectoring_nozzle_system_data, 65535);
        self.number_of_propulsion_systems = g.cnt(self.propulsion_system_data.len()) as _;
        self.number_of_vectoring_nozzle_systems = g.cnt(self.vectoring_nozzle_system_data.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.fixed("infrared_signature_representation_index", 2, b'u', |e| self.infrared_signature_representation_index.enc(e));
        e.fixed("acoustic_signature_representation_index", 2, b'u', |e| self.acoustic_signature_representation_index.enc(e));
        e.fixed("radar_cross_section_signature_representation_index", 2, b'u', |e| self.radar_cross_section_signature_representation_index.enc(e));
        e.count(|e| e.fixed("number_of_propulsion_systems", 2, b'u', |e| self.number_of_propulsion_systems.enc(e)));
        e.count(|e| e.fixed("number_of_vectoring_nozzle_systems", 2, b'u', |e| self.number_of_vectoring_nozzle_systems.enc(e)));
        e.at("propulsion_system_data", |e| self.propulsion_system_data.enc(e));
        e.at("vectoring_nozzle_system_data", |e| self.vectoring_nozzle_system_data.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for IntercomSignalPdu {
    fn kind(&self) -> usize { 30 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.intercom_reference_id);
        g.put(&mut self.intercom_number);
        g.put(&mut self.encoding_scheme);
        g.put(&mut self.tdl_type);
        g.put(&mut self.sample_rate);
        g.charge(2);
        g.put(&mut self.samples);
        self.data_length = g.bit_length(65535) as _;
        self.data = g.octets((self.data_length as usize).div_ceil(8));
        self.data_length = g.cnt(self.data_length as usize) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("intercom_reference_id", |e| self.intercom_reference_id.enc(e));
        e.fixed("intercom_number", 2, b'u', |e| self.intercom_number.enc(e));
        e.fixed("encoding_scheme", 2, b'u', |e| self.encoding_scheme.enc(e));
        e.fixed("tdl_type", 2, b'u', |e| self.tdl_type.enc(e));
        e.fixed("sample_rate", 4, b'u', |e| self.sample_rate.enc(e));
        e.count(|e| e.fixed("data_length", 2, b'u', |e| self.data_length.enc(e)));
        e.fixed("samples", 2, b'u', |e| self.samples.enc(e));
        e.at("data", |e| self.data.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for IntercomControlPdu {
    fn kind(&self) -> usize { 31 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.control_type);
        g.put(&mut self.communications_channel_type);
        g.put(&mut self.source_intercom_reference_id);
        g.put(&mut self.source_intercom_number);
        g.put(&mut self.source_line_id);
        g.put(&mut self.transmit_priority);
        g.put(&mut self.transmit_line_state);
        g.put(&mut self.command);
        g.put(&mut self.master_intercom_reference_id);
        g.put(&mut self.master_intercom_number);
        g.put(&mut self.master_channel_id);
        g.charge(4);
        g.put_list(&mut self.intercom_parameters, 8000);
        self.intercom_parameters_length = g.cnt(self.intercom_parameters.len() * 8) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.fixed("control_type", 1, b'u', |e| self.control_type.enc(e));
        e.fixed("communications_channel_type", 1, b'u', |e| self.communications_channel_type.enc(e));
        e.at("source_intercom_reference_id", |e| self.source_intercom_reference_id.enc(e));
        e.fixed("source_intercom_number", 2, b'u', |e| self.source_intercom_number.enc(e));
        e.fixed("source_line_id", 1, b'u', |e| self.source_line_id.enc(e));
        e.fixed("transmit_priority", 1, b'u', |e| self.transmit_priority.enc(e));
        e.fixed("transmit_line_state", 1, b'u', |e| self.transmit_line_state.enc(e));
        e.fixed("command", 1, b'u', |e| self.command.enc(e));
        e.at("master_intercom_reference_id", |e| self.master_intercom_reference_id.enc(e));
        e.fixed("master_intercom_number", 2, b'u', |e| self.master_intercom_number.enc(e));
        e.fixed("master_channel_id", 2, b'u', |e| self.master_channel_id.enc(e));
        e.count(|e| e.fixed("intercom_parameters_length", 4, b'u', |e| self.intercom_parameters_length.enc(e)));
        e.at("intercom_parameters", |e| self.intercom_parameters.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for AggregateStatePdu {
    fn kind(&self) -> usize { 32 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.aggregate_id);
        g.put(&mut self.force_id);
        g.put(&mut self.aggregate_state);
        g.put(&mut self.aggregate_type);
        g.put(&mut self.formation);
        g.put(&mut self.aggregate_marking);
        g.put(&mut self.dimensions);
        g.put(&mut self.orientation);
        g.put(&mut self.center_of_mass);
        g.put(&mut self.velocity);
        g.charge(2);
        g.charge(2);
        g.charge(2);
        g.charge(2);
        g.put_list(&mut self.aggregate_id_list, 65535);
        g.put_list(&mut self.entity_id_list, 65535);
        g.charge(0);
        g.put_list(&mut self.silent_aggregate_system_list, 65535);
        g.put_list(&mut self.silent_entity_system_list, 65535);
        g.charge(4);
        g.put_list(&mut self.variable_datum_list, 65535);
        self.number_of_dis_aggregates = g.cnt(self.aggregate_id_list.len()) as _;
        self.number_of_dis_entities = g.cnt(self.entity_id_list.len()) as _;
        self.number_of_silent_aggregate_types = g.cnt(self.silent_aggregate_system_list.len()) as _;
        self.number_of_silent_entity_types = g.cnt(self.silent_entity_system_list.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_list.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("aggregate_id", |e| self.aggregate_id.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.fixed("aggregate_state", 1, b'u', |e| self.aggregate_state.enc(e));
        e.at("aggregate_type", |e| self.aggregate_type.enc(e));
        e.fixed("formation", 4, b'u', |e| self.formation.enc(e));
        e.at("aggregate_marking", |e| self.aggregate_marking.enc(e));
        e.at("dimensions", |e| self.dimensions.enc(e));
        e.at("orientation", |e| self.orientation.enc(e));
        e.at("center_of_mass", |e| self.center_of_mass.enc(e));
        e.at("velocity", |e| self.velocity.enc(e));
        e.count(|e| e.fixed("number_of_dis_aggregates", 2, b'u', |e| self.number_of_dis_aggregates.enc(e)));
        e.count(|e| e.fixed("number_of_dis_entities", 2, b'u', |e| self.number_of_dis_entities.enc(e)));
        e.count(|e| e.fixed("number_of_silent_aggregate_types", 2, b'u', |e| self.number_of_silent_aggregate_types.enc(e)));
        e.count(|e| e.fixed("number_of_silent_entity_types", 2, b'u', |e| self.number_of_silent_entity_types.enc(e)));
        e.at("aggregate_id_list", |e| self.aggregate_id_list.enc(e));
        e.at("entity_id_list", |e| self.entity_id_list.enc(e));
        e.at("silent_aggregate_system_list", |e| self.silent_aggregate_system_list.enc(e));
        e.at("silent_entity_system_list", |e| self.silent_entity_system_list.enc(e));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("variable_datum_list", |e| self.variable_datum_list.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for IsGroupOfPdu {
    fn kind(&self) -> usize { 33 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.group_entity_id);
        g.put(&mut self.grouped_entity_category);
        g.charge(1);
        g.charge(4);
        g.put(&mut self.latitude);
        g.put(&mut self.longitude);
        g.put_list(&mut self.grouped_entity_descriptions, 255);
        self.number_of_grouped_entities = g.cnt(self.grouped_entity_descriptions.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("group_entity_id", |e| self.group_entity_id.enc(e));
        e.fixed("grouped_entity_category", 1, b'u', |e| self.grouped_entity_category.enc(e));
        e.count(|e| e.fixed("number_of_grouped_entities", 1, b'u', |e| self.number_of_grouped_entities.enc(e)));
        e.pad(4);
        e.fixed("latitude", 8, b'f', |e| self.latitude.enc(e));
        e.fixed("longitude", 8, b'f', |e| self.longitude.enc(e));
        e.at("grouped_entity_descriptions", |e| self.grouped_entity_descriptions.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for TransferOwnershipPdu {
    fn kind(&self) -> usize { 34 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_id);
        g.put(&mut self.receiving_id);
        g.put(&mut self.request_id);
        g.put(&mut self.required_reliability_service);
        g.put(&mut self.transfer_type);
        g.put(&mut self.transfer_entity_id);
        g.put(&mut self.record_information);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_id", |e| self.originating_id.enc(e));
        e.at("receiving_id", |e| self.receiving_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.fixed("transfer_type", 1, b'u', |e| self.transfer_type.enc(e));
        e.at("transfer_entity_id", |e| self.transfer_entity_id.enc(e));
        e.at("record_information", |e| self.record_information.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for IsPartOfPdu {
    fn kind(&self) -> usize { 35 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.relationship);
        g.put(&mut self.part_location);
        g.put(&mut self.named_location_id);
        g.put(&mut self.part_entity_type);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("relationship", |e| self.relationship.enc(e));
        e.at("part_location", |e| self.part_location.enc(e));
        e.at("named_location_id", |e| self.named_location_id.enc(e));
        e.at("part_entity_type", |e| self.part_entity_type.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for MinefieldStatePdu {
    fn kind(&self) -> usize { 36 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.minefield_id);
        g.put(&mut self.minefield_sequence);
        g.put(&mut self.force_id);
        g.charge(1);
        g.put(&mut self.minefield_type);
        g.charge(2);
        g.put(&mut self.minefield_location);
        g.put(&mut self.minefield_orientation);
        g.put(&mut self.appearance);
        g.put(&mut self.protocol_mode);
        g.put_list(&mut self.perimeter_points, 255);
        g.put_list(&mut self.mine_type, 65535);
        self.number_of_perimeter_points = g.cnt(self.perimeter_points.len()) as _;
        self.number_of_mine_types = g.cnt(self.mine_type.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("minefield_id", |e| self.minefield_id.enc(e));
        e.fixed("minefield_sequence", 2, b'u', |e| self.minefield_sequence.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.count(|e| e.fixed("number_of_perimeter_points", 1, b'u', |e| self.number_of_perimeter_points.enc(e)));
        e.at("minefield_type", |e| self.minefield_type.enc(e));
        e.count(|e| e.fixed("number_of_mine_types", 2, b'u', |e| self.number_of_mine_types.enc(e)));
        e.at("minefield_location", |e| self.minefield_location.enc(e));
        e.at("minefield_orientation", |e| self.minefield_orientation.enc(e));
        e.fixed("appearance", 2, b'u', |e| self.appearance.enc(e));
        e.fixed("protocol_mode", 2, b'u', |e| self.protocol_mode.enc(e));
        e.at("perimeter_points", |e| self.perimeter_points.enc(e));
        e.at("mine_type", |e| self.mine_type.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for MinefieldQueryPdu {
    fn kind(&self) -> usize { 37 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.minefield_id);
        g.put(&mut self.requesting_entity_id);
        g.put(&mut self.request_id);
        g.charge(1);
        g.charge(1);
        g.charge(1);
        g.put(&mut self.data_filter);
        g.put(&mut self.requested_mine_type);
        g.put_list(&mut self.requested_perimeter_points, 255);
        g.put_list(&mut self.sensor_types, 255);
        self.number_of_perimeter_points = g.cnt(self.requested_perimeter_points.len()) as _;
        self.number_of_sensor_types = g.cnt(self.sensor_types.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("minefield_id", |e| self.minefield_id.enc(e));
        e.at("requesting_entity_id", |e| self.requesting_entity_id.enc(e));
        e.fixed("request_id", 1, b'u', |e| self.request_id.enc(e));
        e.count(|e| e.fixed("number_of_perimeter_points", 1, b'u', |e| self.number_of_perimeter_points.enc(e)));
        e.pad(1);
        e.count(|e| e.fixed("number_of_sensor_types", 1, b'u', |e| self.number_of_sensor_types.enc(e)));
        e.fixed("data_filter", 4, b'u', |e| self.data_filter.enc(e));
        e.at("requested_mine_type", |e| self.requested_mine_type.enc(e));
        e.at("requested_perimeter_points", |e| self.requested_perimeter_points.enc(e));
        e.at("sensor_types", |e| self.sensor_types.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for MinefieldDataPdu {
    fn kind(&self) -> usize { 38 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.minefield_id);
        g.put(&mut self.requesting_entity_id);
        g.put(&mut self.minefield_sequence_number);
        g.put(&mut self.request_id);
        g.put(&mut self.pdu_sequence_number);
        g.put(&mut self.number_of_pdus);
        g.charge(1);
        g.charge(1);
        g.charge(1);
        g.put(&mut self.data_filter);
        g.put(&mut self.mine_type);
        g.put_list(&mut self.sensor_types, 255);
        g.put_list(&mut self.mine_location, 255);
        self.ground_burial_depth_offset = if g.undecodable { g.opt_list::<f32>() } else { Vec::new() };
        self.water_burial_depth_offset = if g.undecodable { g.opt_list::<f32>() } else { Vec::new() };
        self.snow_burial_depth_offset = if g.undecodable { g.opt_list::<f32>() } else { Vec::new() };
        self.mine_orientation = if g.undecodable { g.opt_list::<EulerAngles>() } else { Vec::new() };
        self.thermal_contrast = if g.undecodable { g.opt_list::<f32>() } else { Vec::new() };
        self.reflectance = if g.undecodable { g.opt_list::<f32>() } else { Vec::new() };
        self.mine_emplacement_time = if g.undecodable { g.opt_list::<ClockTime>() } else { Vec::new() };
        self.mine_entity_id = if g.undecodable { g.opt_list::<u16>() } else { Vec::new() };
        self.fusing = if g.undecodable { g.opt_list::<u16>() } else { Vec::new() };
        self.scalar_detection_coefficient = if g.undecodable { g.opt_list::<u8>() } else { Vec::new() };
        self.paint_scheme = if g.undecodable { g.opt_list::<u8>() } else { Vec::new() };
        self.number_of_trip_wires = if g.undecodable { g.opt_list::<u8>() } else { Vec::new() };
        self.number_of_vertices = if g.undecodable { g.opt_list::<u8>() } else { Vec::new() };
        self.vertices = if g.undecodable { g.opt_list::<Vec<EntityCoordinateVector>>() } else { Vec::new() };
        self.number_of_sensor_types = g.cnt(self.sensor_types.len()) as _;
        self.number_of_mines_in_this_pdu = g.cnt(self.mine_location.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("minefield_id", |e| self.minefield_id.enc(e));
        e.at("requesting_entity_id", |e| self.requesting_entity_id.enc(e));
        e.fixed("minefield_sequence_number", 2, b'u', |e| self.minefield_sequence_number.enc(e));
        e.fixed("request_id", 1, b'u', |e| self.request_id.enc(e));
        e.fixed("pdu_sequence_number", 1, b'u', |e| self.pdu_sequence_number.enc(e));
        e.fixed("number_of_pdus", 1, b'u', |e| self.number_of_pdus.enc(e));
        e.count(|e| e.fixed("number_of_mines_in_this_pdu", 1, b'u', |e| self.number_of_mines_in_this_pdu.enc(e)));
        e.count(|e| e.fixed("number_of_sensor_types", 1, b'u', |e| self.number_of_sensor_types.enc(e)));
        e.pad(1);
        e.fixed("data_filter", 4, b'u', |e| self.data_filter.enc(e));
        e.at("mine_type", |e| self.mine_type.enc(e));
        e.at("sensor_types", |e| self.sensor_types.enc(e));
        e.at("mine_location", |e| self.mine_location.enc(e));
        if !e.drop_undecodable { e.at("ground_burial_depth_offset", |e| self.ground_burial_depth_offset.enc(e)); }
        if !e.drop_undecodable { e.at("water_burial_depth_offset", |e| self.water_burial_depth_offset.enc(e)); }
        if !e.drop_undecodable { e.at("snow_burial_depth_offset", |e| self.snow_burial_depth_offset.enc(e)); }
        if !e.drop_undecodable { e.at("mine_orientation", |e| self.mine_orientation.enc(e)); }
        if !e.drop_undecodable { e.at("thermal_contrast", |e| self.thermal_contrast.enc(e)); }
        if !e.drop_undecodable { e.at("reflectance", |e| self.reflectance.enc(e)); }
        if !e.drop_undecodable { e.at("mine_emplacement_time", |e| self.mine_emplacement_time.enc(e)); }
        if !e.drop_undecodable { e.at("mine_entity_id", |e| self.mine_entity_id.enc(e)); }
        if !e.drop_undecodable { e.at("fusing", |e| self.fusing.enc(e)); }
        if !e.drop_undecodable { e.at("scalar_detection_coefficient", |e| self.scalar_detection_coefficient.enc(e)); }
        if !e.drop_undecodable { e.at("paint_scheme", |e| self.paint_scheme.enc(e)); }
        if !e.drop_undecodable { e.at("number_of_trip_wires", |e| self.number_of_trip_wires.enc(e)); }
        if !e.drop_undecodable { e.at("number_of_vertices", |e| self.number_of_vertices.enc(e)); }
        if !e.drop_undecodable { e.at("vertices", |e| self.vertices.enc(e)); }
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for MinefieldResponseNackPdu {
    fn kind(&self) -> usize { 39 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.minefield_id);
        g.put(&mut self.requesting_entity_id);
        g.put(&mut self.request_id);
        g.charge(1);
        g.put_list(&mut self.missing_pdu_sequence_numbers, 255);
        self.number_of_missing_pdus = g.cnt(self.missing_pdu_sequence_numbers.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("minefield_id", |e| self.minefield_id.enc(e));
        e.at("requesting_entity_id", |e| self.requesting_entity_id.enc(e));
        e.fixed("request_id", 1, b'u', |e| self.request_id.enc(e));
        e.count(|e| e.fixed("number_of_missing_pdus", 1, b'u', |e| self.number_of_missing_pdus.enc(e)));
        e.at("missing_pdu_sequence_numbers", |e| self.missing_pdu_sequence_numbers.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for EnvironmentalProcessPdu {
    fn kind(&self) -> usize { 40 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.environmental_process_id);
        g.put(&mut self.environment_type);
        g.put(&mut self.model_type);
        g.put(&mut self.environment_status);
        g.charge(2);
        g.put(&mut self.sequence_number);
        g.put_list(&mut self.environment_records, 65535);
        self.number_of_environment_records = g.cnt(self.environment_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("environmental_process_id", |e| self.environmental_process_id.enc(e));
        e.at("environment_type", |e| self.environment_type.enc(e));
        e.fixed("model_type", 1, b'u', |e| self.model_type.enc(e));
        e.fixed("environment_status", 1, b'u', |e| self.environment_status.enc(e));
        e.count(|e| e.fixed("number_of_environment_records", 2, b'u', |e| self.number_of_environment_records.enc(e)));
        e.fixed("sequence_number", 2, b'u', |e| self.sequence_number.enc(e));
        e.at("environment_records", |e| self.environment_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for GriddedDataPdu {
    fn kind(&self) -> usize { 41 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.environmental_simulation_id);
        g.put(&mut self.field_number);
        g.put(&mut self.pdu_number);
        g.put(&mut self.pdu_total);
        g.put(&mut self.coordinate_system);
        g.charge(1);
        g.put(&mut self.constant_grid);
        g.put(&mut self.environment_type);
        g.put(&mut self.orientation);
        g.put(&mut self.sample_time);
        g.put(&mut self.total_values);
        g.charge(1);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.grid_axis_descriptors, 255);
        g.put_list(&mut self.grid_data_list, 255);
        self.number_of_grid_axes = g.cnt(self.grid_axis_descriptors.len()) as _;
        self.vector_dimension = g.cnt(self.grid_data_list.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("environmental_simulation_id", |e| self.environmental_simulation_id.enc(e));
        e.fixed("field_number", 2, b'u', |e| self.field_number.enc(e));
        e.fixed("pdu_number", 2, b'u', |e| self.pdu_number.enc(e));
        e.fixed("pdu_total", 2, b'u', |e| self.pdu_total.enc(e));
        e.fixed("coordinate_system", 2, b'u', |e| self.coordinate_system.enc(e));
        e.count(|e| e.fixed("number_of_grid_axes", 1, b'u', |e| self.number_of_grid_axes.enc(e)));
        e.fixed("constant_grid", 1, b'u', |e| self.constant_grid.enc(e));
        e.at("environment_type", |e| self.environment_type.enc(e));
        e.at("orientation", |e| self.orientation.enc(e));
        e.at("sample_time", |e| self.sample_time.enc(e));
        e.fixed("total_values", 4, b'u', |e| self.total_values.enc(e));
        e.count(|e| e.fixed("vector_dimension", 1, b'u', |e| self.vector_dimension.enc(e)));
        e.pad(1);
        e.pad(2);
        e.at("grid_axis_descriptors", |e| self.grid_axis_descriptors.enc(e));
        e.at("grid_data_list", |e| self.grid_data_list.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for PointObjectStatePdu {
    fn kind(&self) -> usize { 42 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.object_id);
        g.put(&mut self.referenced_object_id);
        g.put(&mut self.update_number);
        g.put(&mut self.force_id);
        g.put(&mut self.modifications);
        g.put(&mut self.object_type);
        g.put(&mut self.object_location);
        g.put(&mut self.object_orientation);
        g.put(&mut self.specific_object_appearance);
        g.put(&mut self.general_object_appearance);
        g.charge(2);
        g.put(&mut self.requester_id);
        g.put(&mut self.receiving_id);
        g.charge(4);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("object_id", |e| self.object_id.enc(e));
        e.at("referenced_object_id", |e| self.referenced_object_id.enc(e));
        e.fixed("update_number", 2, b'u', |e| self.update_number.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.fixed("modifications", 1, b'u', |e| self.modifications.enc(e));
        e.at("object_type", |e| self.object_type.enc(e));
        e.at("object_location", |e| self.object_location.enc(e));
        e.at("object_orientation", |e| self.object_orientation.enc(e));
        e.fixed("specific_object_appearance", 4, b'u', |e| self.specific_object_appearance.enc(e));
        e.fixed("general_object_appearance", 2, b'u', |e| self.general_object_appearance.enc(e));
        e.pad(2);
        e.at("requester_id", |e| self.requester_id.enc(e));
        e.at("receiving_id", |e| self.receiving_id.enc(e));
        e.pad(4);
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for LinearObjectStatePdu {
    fn kind(&self) -> usize { 43 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.object_id);
        g.put(&mut self.referenced_object_id);
        g.put(&mut self.update_number);
        g.put(&mut self.force_id);
        g.charge(1);
        g.put(&mut self.requester_id);
        g.put(&mut self.receiving_id);
        g.put(&mut self.object_type);
        g.put_list(&mut self.linear_segment_parameters, 255);
        self.number_of_segments = g.cnt(self.linear_segment_parameters.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("object_id", |e| self.object_id.enc(e));
        e.at("referenced_object_id", |e| self.referenced_object_id.enc(e));
        e.fixed("update_number", 2, b'u', |e| self.update_number.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.count(|e| e.fixed("number_of_segments", 1, b'u', |e| self.number_of_segments.enc(e)));
        e.at("requester_id", |e| self.requester_id.enc(e));
        e.at("receiving_id", |e| self.receiving_id.enc(e));
        e.at("object_type", |e| self.object_type.enc(e));
        e.at("linear_segment_parameters", |e| self.linear_segment_parameters.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ArealObjectStatePdu {
    fn kind(&self) -> usize { 44 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.object_id);
        g.put(&mut self.referenced_object_id);
        g.put(&mut self.update_number);
        g.put(&mut self.force_id);
        g.put(&mut self.modifications);
        g.put(&mut self.object_type);
        g.put(&mut self.specific_object_appearance);
        g.put(&mut self.general_object_appearance);
        g.charge(2);
        g.put(&mut self.requester_id);
        g.put(&mut self.receiving_id);
        g.put_list(&mut self.object_location, 65535);
        self.number_of_points = g.cnt(self.object_location.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("object_id", |e| self.object_id.enc(e));
        e.at("referenced_object_id", |e| self.referenced_object_id.enc(e));
        e.fixed("update_number", 2, b'u', |e| self.update_number.enc(e));
        e.fixed("force_id", 1, b'u', |e| self.force_id.enc(e));
        e.fixed("modifications", 1, b'u', |e| self.modifications.enc(e));
        e.at("object_type", |e| self.object_type.enc(e));
        e.fixed("specific_object_appearance", 4, b'u', |e| self.specific_object_appearance.enc(e));
        e.at("general_object_appearance", |e| self.general_object_appearance.enc(e));
        e.count(|e| e.fixed("number_of_points", 2, b'u', |e| self.number_of_points.enc(e)));
        e.at("requester_id", |e| self.requester_id.enc(e));
        e.at("receiving_id", |e| self.receiving_id.enc(e));
        e.at("object_location", |e| self.object_location.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CreateEntityReliablePdu {
    fn kind(&self) -> usize { 45 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for RemoveEntityReliablePdu {
    fn kind(&self) -> usize { 46 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for StartResumeReliablePdu {
    fn kind(&self) -> usize { 47 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.real_world_time);
        g.put(&mut self.simulation_time);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("real_world_time", |e| self.real_world_time.enc(e));
        e.at("simulation_time", |e| self.simulation_time.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for StopFreezeReliablePdu {
    fn kind(&self) -> usize { 48 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.real_world_time);
        g.put(&mut self.reason);
        g.put(&mut self.frozen_behavior);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.at("real_world_time", |e| self.real_world_time.enc(e));
        e.fixed("reason", 1, b'u', |e| self.reason.enc(e));
        e.at("frozen_behavior", |e| self.frozen_behavior.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for AcknowledgeReliablePdu {
    fn kind(&self) -> usize { 49 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.acknowledge_flag);
        g.put(&mut self.response_flag);
        g.put(&mut self.request_id);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("acknowledge_flag", 2, b'u', |e| self.acknowledge_flag.enc(e));
        e.fixed("response_flag", 2, b'u', |e| self.response_flag.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ActionRequestReliablePdu {
    fn kind(&self) -> usize { 50 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
        g.put(&mut self.action_id);
        g.charge(4);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("action_id", 4, b'u', |e| self.action_id.enc(e));
        e.pad(4);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for ActionResponseReliablePdu {
    fn kind(&self) -> usize { 51 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.request_status);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("request_status", 4, b'u', |e| self.request_status.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DataQueryReliablePdu {
    fn kind(&self) -> usize { 52 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
        g.put(&mut self.time_interval);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_ids, 65535);
        g.put_list(&mut self.variable_datum_ids, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_ids.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_ids.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("time_interval", 4, b'u', |e| self.time_interval.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_ids", |e| self.fixed_datum_ids.enc(e));
        e.at("variable_datum_ids", |e| self.variable_datum_ids.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for SetDataReliablePdu {
    fn kind(&self) -> usize { 53 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.put(&mut self.request_id);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DataReliablePdu {
    fn kind(&self) -> usize { 54 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for EventReportReliablePdu {
    fn kind(&self) -> usize { 55 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.event_type);
        g.charge(4);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("event_type", 4, b'u', |e| self.event_type.enc(e));
        e.pad(4);
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CommentReliablePdu {
    fn kind(&self) -> usize { 56 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.charge(4);
        g.charge(4);
        g.put_list(&mut self.fixed_datum_records, 65535);
        g.put_list(&mut self.variable_datum_records, 65535);
        self.number_of_fixed_datum_records = g.cnt(self.fixed_datum_records.len()) as _;
        self.number_of_variable_datum_records = g.cnt(self.variable_datum_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.count(|e| e.fixed("number_of_fixed_datum_records", 4, b'u', |e| self.number_of_fixed_datum_records.enc(e)));
        e.count(|e| e.fixed("number_of_variable_datum_records", 4, b'u', |e| self.number_of_variable_datum_records.enc(e)));
        e.at("fixed_datum_records", |e| self.fixed_datum_records.enc(e));
        e.at("variable_datum_records", |e| self.variable_datum_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for SetRecordReliablePdu {
    fn kind(&self) -> usize { 57 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.charge(2);
        g.charge(4);
        g.put(&mut self.record_sets);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.pad(2);
        e.pad(4);
        e.at("record_sets", |e| self.record_sets.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for RecordQueryReliablePdu {
    fn kind(&self) -> usize { 58 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_entity_id);
        g.put(&mut self.receiving_entity_id);
        g.put(&mut self.request_id);
        g.put(&mut self.required_reliability_service);
        g.charge(1);
        g.put(&mut self.event_type);
        g.put(&mut self.time);
        g.charge(4);
        g.put_list(&mut self.record_ids, 65535);
        self.number_of_records = g.cnt(self.record_ids.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_entity_id", |e| self.originating_entity_id.enc(e));
        e.at("receiving_entity_id", |e| self.receiving_entity_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("required_reliability_service", 1, b'u', |e| self.required_reliability_service.enc(e));
        e.pad(1);
        e.fixed("event_type", 2, b'u', |e| self.event_type.enc(e));
        e.fixed("time", 4, b'u', |e| self.time.enc(e));
        e.count(|e| e.fixed("number_of_records", 4, b'u', |e| self.number_of_records.enc(e)));
        e.at("record_ids", |e| self.record_ids.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for CollisionElasticPdu {
    fn kind(&self) -> usize { 59 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.issuing_entity_id);
        g.put(&mut self.colliding_entity_id);
        g.put(&mut self.event_id);
        g.charge(2);
        g.put(&mut self.contact_velocity);
        g.put(&mut self.mass);
        g.put(&mut self.location_of_impact);
        g.put(&mut self.collision_intermediate_result_xx);
        g.put(&mut self.collision_intermediate_result_xy);
        g.put(&mut self.collision_intermediate_result_xz);
        g.put(&mut self.collision_intermediate_result_yy);
        g.put(&mut self.collision_intermediate_result_yz);
        g.put(&mut self.collision_intermediate_result_zz);
        g.put(&mut self.unit_surface_normal);
        g.put(&mut self.coefficient_of_restitution);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("issuing_entity_id", |e| self.issuing_entity_id.enc(e));
        e.at("colliding_entity_id", |e| self.colliding_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.pad(2);
        e.at("contact_velocity", |e| self.contact_velocity.enc(e));
        e.fixed("mass", 4, b'f', |e| self.mass.enc(e));
        e.at("location_of_impact", |e| self.location_of_impact.enc(e));
        e.fixed("collision_intermediate_result_xx", 4, b'f', |e| self.collision_intermediate_result_xx.enc(e));
        e.fixed("collision_intermediate_result_xy", 4, b'f', |e| self.collision_intermediate_result_xy.enc(e));
        e.fixed("collision_intermediate_result_xz", 4, b'f', |e| self.collision_intermediate_result_xz.enc(e));
        e.fixed("collision_intermediate_result_yy", 4, b'f', |e| self.collision_intermediate_result_yy.enc(e));
        e.fixed("collision_intermediate_result_yz", 4, b'f', |e| self.collision_intermediate_result_yz.enc(e));
        e.fixed("collision_intermediate_result_zz", 4, b'f', |e| self.collision_intermediate_result_zz.enc(e));
        e.at("unit_surface_normal", |e| self.unit_surface_normal.enc(e));
        e.fixed("coefficient_of_restitution", 4, b'f', |e| self.coefficient_of_restitution.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for EntityStateUpdatePdu {
    fn kind(&self) -> usize { 60 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.entity_id);
        g.charge(1);
        g.charge(1);
        g.put(&mut self.entity_linear_velocity);
        g.put(&mut self.entity_location);
        g.put(&mut self.entity_orientation);
        g.put(&mut self.entity_appearance);
        g.put_list(&mut self.variable_parameter_records, 255);
        self.number_of_variable_parameters = g.cnt(self.variable_parameter_records.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("entity_id", |e| self.entity_id.enc(e));
        e.pad(1);
        e.count(|e| e.fixed("number_of_variable_parameters", 1, b'u', |e| self.number_of_variable_parameters.enc(e)));
        e.at("entity_linear_velocity", |e| self.entity_linear_velocity.enc(e));
        e.at("entity_location", |e| self.entity_location.enc(e));
        e.at("entity_orientation", |e| self.entity_orientation.enc(e));
        e.fixed("entity_appearance", 4, b'u', |e| self.entity_appearance.enc(e));
        e.at("variable_parameter_records", |e| self.variable_parameter_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for DirectedEnergyFirePdu {
    fn kind(&self) -> usize { 61 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.firing_entity_id);
        g.put(&mut self.event_id);
        g.put(&mut self.munition_type);
        g.put(&mut self.shot_start_time);
        g.put(&mut self.cumulative_shot_time);
        g.put(&mut self.aperture_emitter_location);
        g.put(&mut self.aperture_diameter);
        g.put(&mut self.wavelength);
        g.charge(4);
        g.put(&mut self.pulse_repetition_frequency);
        g.put(&mut self.pulse_width);
        g.put(&mut self.flags);
        g.put(&mut self.pulse_shape);
        g.charge(1);
        g.charge(4);
        g.charge(2);
        g.charge(2);
        g.put_list(&mut self.damage_descriptions, 65535);
        self.number_of_de_records = g.cnt(self.damage_descriptions.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("firing_entity_id", |e| self.firing_entity_id.enc(e));
        e.at("event_id", |e| self.event_id.enc(e));
        e.at("munition_type", |e| self.munition_type.enc(e));
        e.at("shot_start_time", |e| self.shot_start_time.enc(e));
        e.fixed("cumulative_shot_time", 4, b'f', |e| self.cumulative_shot_time.enc(e));
        e.at("aperture_emitter_location", |e| self.aperture_emitter_location.enc(e));
        e.fixed("aperture_diameter", 4, b'f', |e| self.aperture_diameter.enc(e));
        e.fixed("wavelength", 4, b'f', |e| self.wavelength.enc(e));
        e.pad(4);
        e.fixed("pulse_repetition_frequency", 4, b'f', |e| self.pulse_repetition_frequency.enc(e));
        e.fixed("pulse_width", 4, b'f', |e| self.pulse_width.enc(e));
        e.fixed("flags", 2, b'u', |e| self.flags.enc(e));
        e.fixed("pulse_shape", 1, b'u', |e| self.pulse_shape.enc(e));
        e.pad(1);
        e.pad(4);
        e.pad(2);
        e.count(|e| e.fixed("number_of_de_records", 2, b'u', |e| self.number_of_de_records.enc(e)));
        e.at("damage_descriptions", |e| self.damage_descriptions.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for EntityDamageStatusPdu {
    fn kind(&self) -> usize { 62 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.damaged_entity_id);
        g.charge(2);
        g.charge(2);
        g.charge(2);
        g.put_list(&mut self.damage_descriptions, 65535);
        self.number_of_damage_descriptions = g.cnt(self.damage_descriptions.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("damaged_entity_id", |e| self.damaged_entity_id.enc(e));
        e.pad(2);
        e.pad(2);
        e.count(|e| e.fixed("number_of_damage_descriptions", 2, b'u', |e| self.number_of_damage_descriptions.enc(e)));
        e.at("damage_descriptions", |e| self.damage_descriptions.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for InformationOperationsActionPdu {
    fn kind(&self) -> usize { 63 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_simulation_id);
        g.put(&mut self.receiving_simulation_id);
        g.put(&mut self.request_id);
        g.put(&mut self.io_warfare_type);
        g.put(&mut self.io_simulation_source);
        g.put(&mut self.io_action_type);
        g.put(&mut self.io_action_phase);
        g.charge(4);
        g.put(&mut self.io_attacker_entity_id);
        g.put(&mut self.io_primary_target_entity_id);
        g.charge(2);
        g.put(&mut self.io_records);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_simulation_id", |e| self.originating_simulation_id.enc(e));
        e.at("receiving_simulation_id", |e| self.receiving_simulation_id.enc(e));
        e.fixed("request_id", 4, b'u', |e| self.request_id.enc(e));
        e.fixed("io_warfare_type", 2, b'u', |e| self.io_warfare_type.enc(e));
        e.fixed("io_simulation_source", 2, b'u', |e| self.io_simulation_source.enc(e));
        e.fixed("io_action_type", 2, b'u', |e| self.io_action_type.enc(e));
        e.fixed("io_action_phase", 2, b'u', |e| self.io_action_phase.enc(e));
        e.pad(4);
        e.at("io_attacker_entity_id", |e| self.io_attacker_entity_id.enc(e));
        e.at("io_primary_target_entity_id", |e| self.io_primary_target_entity_id.enc(e));
        e.pad(2);
        e.at("io_records", |e| self.io_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for InformationOperationsReportPdu {
    fn kind(&self) -> usize { 64 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_simulation_id);
        g.put(&mut self.io_simulation_source);
        g.put(&mut self.io_report_type);
        g.charge(1);
        g.put(&mut self.io_attacker_entity_id);
        g.put(&mut self.primary_target_entity_id);
        g.charge(2);
        g.charge(2);
        g.put(&mut self.io_records);
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_simulation_id", |e| self.originating_simulation_id.enc(e));
        e.fixed("io_simulation_source", 2, b'u', |e| self.io_simulation_source.enc(e));
        e.fixed("io_report_type", 1, b'u', |e| self.io_report_type.enc(e));
        e.pad(1);
        e.at("io_attacker_entity_id", |e| self.io_attacker_entity_id.enc(e));
        e.at("primary_target_entity_id", |e| self.primary_target_entity_id.enc(e));
        e.pad(2);
        e.pad(2);
        e.at("io_records", |e| self.io_records.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
impl ModelPdu for AttributePdu {
    fn kind(&self) -> usize { 65 }
    fn set(&mut self, g: &mut Gen) {
        g.put(&mut self.originating_simulation_address);
        g.charge(4);
        g.charge(2);
        g.put(&mut self.attribute_record_pdu_type);
        g.put(&mut self.attribute_record_protocol_version);
        g.put(&mut self.master_attribute_record_type);
        g.put(&mut self.action_code);
        g.charge(1);
        g.charge(2);
        g.put_list(&mut self.attribute_record_sets, 65535);
        self.number_of_attribute_record_sets = g.cnt(self.attribute_record_sets.len()) as _;
    }
    fn enc_body(&self, e: &mut Enc) {
        e.at("originating_simulation_address", |e| self.originating_simulation_address.enc(e));
        e.pad(4);
        e.pad(2);
        e.fixed("attribute_record_pdu_type", 1, b'u', |e| self.attribute_record_pdu_type.enc(e));
        e.fixed("attribute_record_protocol_version", 1, b'u', |e| self.attribute_record_protocol_version.enc(e));
        e.fixed("master_attribute_record_type", 4, b'u', |e| self.master_attribute_record_type.enc(e));
        e.fixed("action_code", 1, b'u', |e| self.action_code.enc(e));
        e.pad(1);
        e.count(|e| e.fixed("number_of_attribute_record_sets", 2, b'u', |e| self.number_of_attribute_record_sets.enc(e)));
        e.at("attribute_record_sets", |e| self.attribute_record_sets.enc(e));
    }
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }
}
pub static KINDS: &[Kind] = &[
    Kind { name: "EntityStatePdu", type_value: 1, family: 1, pdu_type: PduType::EntityState,
      new: || Box::new(EntityStatePdu::new()), default: || Box::new(EntityStatePdu::default()),
      de: |b| EntityStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EntityStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EntityStatePdu>(),
      down: |p| p.as_any().downcast_ref::<EntityStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "FirePdu", type_value: 2, family: 2, pdu_type: PduType::Fire,
      new: || Box::new(FirePdu::new()), default: || Box::new(FirePdu::default()),
      de: |b| FirePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| FirePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<FirePdu>(),
      down: |p| p.as_any().downcast_ref::<FirePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DetonationPdu", type_value: 3, family: 2, pdu_type: PduType::Detonation,
      new: || Box::new(DetonationPdu::new()), default: || Box::new(DetonationPdu::default()),
      de: |b| DetonationPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DetonationPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DetonationPdu>(),
      down: |p| p.as_any().downcast_ref::<DetonationPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CollisionPdu", type_value: 4, family: 1, pdu_type: PduType::Collision,
      new: || Box::new(CollisionPdu::new()), default: || Box::new(CollisionPdu::default()),
      de: |b| CollisionPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CollisionPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CollisionPdu>(),
      down: |p| p.as_any().downcast_ref::<CollisionPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ServiceRequestPdu", type_value: 5, family: 3, pdu_type: PduType::ServiceRequest,
      new: || Box::new(ServiceRequestPdu::new()), default: || Box::new(ServiceRequestPdu::default()),
      de: |b| ServiceRequestPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ServiceRequestPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ServiceRequestPdu>(),
      down: |p| p.as_any().downcast_ref::<ServiceRequestPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ResupplyOfferPdu", type_value: 6, family: 3, pdu_type: PduType::ResupplyOffer,
      new: || Box::new(ResupplyOfferPdu::new()), default: || Box::new(ResupplyOfferPdu::default()),
      de: |b| ResupplyOfferPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ResupplyOfferPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ResupplyOfferPdu>(),
      down: |p| p.as_any().downcast_ref::<ResupplyOfferPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ResupplyReceivedPdu", type_value: 7, family: 3, pdu_type: PduType::ResupplyReceived,
      new: || Box::new(ResupplyReceivedPdu::new()), default: || Box::new(ResupplyReceivedPdu::default()),
      de: |b| ResupplyReceivedPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ResupplyReceivedPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ResupplyReceivedPdu>(),
      down: |p| p.as_any().downcast_ref::<ResupplyReceivedPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ResupplyCancelPdu", type_value: 8, family: 3, pdu_type: PduType::ResupplyCancel,
      new: || Box::new(ResupplyCancelPdu::new()), default: || Box::new(ResupplyCancelPdu::default()),
      de: |b| ResupplyCancelPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ResupplyCancelPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ResupplyCancelPdu>(),
      down: |p| p.as_any().downcast_ref::<ResupplyCancelPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "RepairCompletePdu", type_value: 9, family: 3, pdu_type: PduType::RepairComplete,
      new: || Box::new(RepairCompletePdu::new()), default: || Box::new(RepairCompletePdu::default()),
      de: |b| RepairCompletePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| RepairCompletePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<RepairCompletePdu>(),
      down: |p| p.as_any().downcast_ref::<RepairCompletePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "RepairResponsePdu", type_value: 10, family: 3, pdu_type: PduType::RepairResponse,
      new: || Box::new(RepairResponsePdu::new()), default: || Box::new(RepairResponsePdu::default()),
      de: |b| RepairResponsePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| RepairResponsePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<RepairResponsePdu>(),
      down: |p| p.as_any().downcast_ref::<RepairResponsePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CreateEntityPdu", type_value: 11, family: 5, pdu_type: PduType::CreateEntity,
      new: || Box::new(CreateEntityPdu::new()), default: || Box::new(CreateEntityPdu::default()),
      de: |b| CreateEntityPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CreateEntityPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CreateEntityPdu>(),
      down: |p| p.as_any().downcast_ref::<CreateEntityPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "RemoveEntityPdu", type_value: 12, family: 5, pdu_type: PduType::RemoveEntity,
      new: || Box::new(RemoveEntityPdu::new()), default: || Box::new(RemoveEntityPdu::default()),
      de: |b| RemoveEntityPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| RemoveEntityPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<RemoveEntityPdu>(),
      down: |p| p.as_any().downcast_ref::<RemoveEntityPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "StartResumePdu", type_value: 13, family: 5, pdu_type: PduType::StartResume,
      new: || Box::new(StartResumePdu::new()), default: || Box::new(StartResumePdu::default()),
      de: |b| StartResumePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| StartResumePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<StartResumePdu>(),
      down: |p| p.as_any().downcast_ref::<StartResumePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "StopFreezePdu", type_value: 14, family: 5, pdu_type: PduType::StopFreeze,
      new: || Box::new(StopFreezePdu::new()), default: || Box::new(StopFreezePdu::default()),
      de: |b| StopFreezePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| StopFreezePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<StopFreezePdu>(),
      down: |p| p.as_any().downcast_ref::<StopFreezePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "AcknowledgePdu", type_value: 15, family: 5, pdu_type: PduType::Acknowledge,
      new: || Box::new(AcknowledgePdu::new()), default: || Box::new(AcknowledgePdu::default()),
      de: |b| AcknowledgePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| AcknowledgePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<AcknowledgePdu>(),
      down: |p| p.as_any().downcast_ref::<AcknowledgePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ActionRequestPdu", type_value: 16, family: 5, pdu_type: PduType::ActionRequest,
      new: || Box::new(ActionRequestPdu::new()), default: || Box::new(ActionRequestPdu::default()),
      de: |b| ActionRequestPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ActionRequestPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ActionRequestPdu>(),
      down: |p| p.as_any().downcast_ref::<ActionRequestPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ActionResponsePdu", type_value: 17, family: 5, pdu_type: PduType::ActionResponse,
      new: || Box::new(ActionResponsePdu::new()), default: || Box::new(ActionResponsePdu::default()),
      de: |b| ActionResponsePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ActionResponsePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ActionResponsePdu>(),
      down: |p| p.as_any().downcast_ref::<ActionResponsePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DataQueryPdu", type_value: 18, family: 5, pdu_type: PduType::DataQuery,
      new: || Box::new(DataQueryPdu::new()), default: || Box::new(DataQueryPdu::default()),
      de: |b| DataQueryPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DataQueryPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DataQueryPdu>(),
      down: |p| p.as_any().downcast_ref::<DataQueryPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "SetDataPdu", type_value: 19, family: 5, pdu_type: PduType::SetData,
      new: || Box::new(SetDataPdu::new()), default: || Box::new(SetDataPdu::default()),
      de: |b| SetDataPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| SetDataPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<SetDataPdu>(),
      down: |p| p.as_any().downcast_ref::<SetDataPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DataPdu", type_value: 20, family: 5, pdu_type: PduType::Data,
      new: || Box::new(DataPdu::new()), default: || Box::new(DataPdu::default()),
      de: |b| DataPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DataPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DataPdu>(),
      down: |p| p.as_any().downcast_ref::<DataPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "EventReportPdu", type_value: 21, family: 5, pdu_type: PduType::EventReport,
      new: || Box::new(EventReportPdu::new()), default: || Box::new(EventReportPdu::default()),
      de: |b| EventReportPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EventReportPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EventReportPdu>(),
      down: |p| p.as_any().downcast_ref::<EventReportPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CommentPdu", type_value: 22, family: 5, pdu_type: PduType::Comment,
      new: || Box::new(CommentPdu::new()), default: || Box::new(CommentPdu::default()),
      de: |b| CommentPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CommentPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CommentPdu>(),
      down: |p| p.as_any().downcast_ref::<CommentPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ElectromagneticEmissionsPdu", type_value: 23, family: 6, pdu_type: PduType::ElectromagneticEmission,
      new: || Box::new(ElectromagneticEmissionsPdu::new()), default: || Box::new(ElectromagneticEmissionsPdu::default()),
      de: |b| ElectromagneticEmissionsPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ElectromagneticEmissionsPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ElectromagneticEmissionsPdu>(),
      down: |p| p.as_any().downcast_ref::<ElectromagneticEmissionsPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DesignatorPdu", type_value: 24, family: 6, pdu_type: PduType::Designator,
      new: || Box::new(DesignatorPdu::new()), default: || Box::new(DesignatorPdu::default()),
      de: |b| DesignatorPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DesignatorPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DesignatorPdu>(),
      down: |p| p.as_any().downcast_ref::<DesignatorPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "TransmitterPdu", type_value: 25, family: 4, pdu_type: PduType::Transmitter,
      new: || Box::new(TransmitterPdu::new()), default: || Box::new(TransmitterPdu::default()),
      de: |b| TransmitterPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| TransmitterPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<TransmitterPdu>(),
      down: |p| p.as_any().downcast_ref::<TransmitterPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "SignalPdu", type_value: 26, family: 4, pdu_type: PduType::Signal,
      new: || Box::new(SignalPdu::new()), default: || Box::new(SignalPdu::default()),
      de: |b| SignalPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| SignalPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<SignalPdu>(),
      down: |p| p.as_any().downcast_ref::<SignalPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ReceiverPdu", type_value: 27, family: 4, pdu_type: PduType::Receiver,
      new: || Box::new(ReceiverPdu::new()), default: || Box::new(ReceiverPdu::default()),
      de: |b| ReceiverPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ReceiverPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ReceiverPdu>(),
      down: |p| p.as_any().downcast_ref::<ReceiverPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "IFFPdu", type_value: 28, family: 6, pdu_type: PduType::IFF,
      new: || Box::new(IFFPdu::new()), default: || Box::new(IFFPdu::default()),
      de: |b| IFFPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| IFFPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<IFFPdu>(),
      down: |p| p.as_any().downcast_ref::<IFFPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "UnderwaterAcousticPdu", type_value: 29, family: 6, pdu_type: PduType::UnderwaterAcoustic,
      new: || Box::new(UnderwaterAcousticPdu::new()), default: || Box::new(UnderwaterAcousticPdu::default()),
      de: |b| UnderwaterAcousticPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| UnderwaterAcousticPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<UnderwaterAcousticPdu>(),
      down: |p| p.as_any().downcast_ref::<UnderwaterAcousticPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "SupplementalEmissionPdu", type_value: 30, family: 6, pdu_type: PduType::SupplementalEmission,
      new: || Box::new(SupplementalEmissionPdu::new()), default: || Box::new(SupplementalEmissionPdu::default()),
      de: |b| SupplementalEmissionPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| SupplementalEmissionPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<SupplementalEmissionPdu>(),
      down: |p| p.as_any().downcast_ref::<SupplementalEmissionPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "IntercomSignalPdu", type_value: 31, family: 4, pdu_type: PduType::IntercomSignal,
      new: || Box::new(IntercomSignalPdu::new()), default: || Box::new(IntercomSignalPdu::default()),
      de: |b| IntercomSignalPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| IntercomSignalPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<IntercomSignalPdu>(),
      down: |p| p.as_any().downcast_ref::<IntercomSignalPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "IntercomControlPdu", type_value: 32, family: 4, pdu_type: PduType::IntercomControl,
      new: || Box::new(IntercomControlPdu::new()), default: || Box::new(IntercomControlPdu::default()),
      de: |b| IntercomControlPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| IntercomControlPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<IntercomControlPdu>(),
      down: |p| p.as_any().downcast_ref::<IntercomControlPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "AggregateStatePdu", type_value: 33, family: 7, pdu_type: PduType::AggregateState,
      new: || Box::new(AggregateStatePdu::new()), default: || Box::new(AggregateStatePdu::default()),
      de: |b| AggregateStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| AggregateStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<AggregateStatePdu>(),
      down: |p| p.as_any().downcast_ref::<AggregateStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "IsGroupOfPdu", type_value: 34, family: 7, pdu_type: PduType::IsGroupOf,
      new: || Box::new(IsGroupOfPdu::new()), default: || Box::new(IsGroupOfPdu::default()),
      de: |b| IsGroupOfPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| IsGroupOfPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<IsGroupOfPdu>(),
      down: |p| p.as_any().downcast_ref::<IsGroupOfPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "TransferOwnershipPdu", type_value: 35, family: 7, pdu_type: PduType::TransferOwnership,
      new: || Box::new(TransferOwnershipPdu::new()), default: || Box::new(TransferOwnershipPdu::default()),
      de: |b| TransferOwnershipPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| TransferOwnershipPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<TransferOwnershipPdu>(),
      down: |p| p.as_any().downcast_ref::<TransferOwnershipPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "IsPartOfPdu", type_value: 36, family: 7, pdu_type: PduType::IsPartOf,
      new: || Box::new(IsPartOfPdu::new()), default: || Box::new(IsPartOfPdu::default()),
      de: |b| IsPartOfPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| IsPartOfPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<IsPartOfPdu>(),
      down: |p| p.as_any().downcast_ref::<IsPartOfPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "MinefieldStatePdu", type_value: 37, family: 8, pdu_type: PduType::MinefieldState,
      new: || Box::new(MinefieldStatePdu::new()), default: || Box::new(MinefieldStatePdu::default()),
      de: |b| MinefieldStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| MinefieldStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<MinefieldStatePdu>(),
      down: |p| p.as_any().downcast_ref::<MinefieldStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "MinefieldQueryPdu", type_value: 38, family: 8, pdu_type: PduType::MinefieldQuery,
      new: || Box::new(MinefieldQueryPdu::new()), default: || Box::new(MinefieldQueryPdu::default()),
      de: |b| MinefieldQueryPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| MinefieldQueryPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<MinefieldQueryPdu>(),
      down: |p| p.as_any().downcast_ref::<MinefieldQueryPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "MinefieldDataPdu", type_value: 39, family: 8, pdu_type: PduType::MinefieldData,
      new: || Box::new(MinefieldDataPdu::new()), default: || Box::new(MinefieldDataPdu::default()),
      de: |b| MinefieldDataPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| MinefieldDataPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<MinefieldDataPdu>(),
      down: |p| p.as_any().downcast_ref::<MinefieldDataPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "MinefieldResponseNackPdu", type_value: 40, family: 8, pdu_type: PduType::MinefieldResponseNack,
      new: || Box::new(MinefieldResponseNackPdu::new()), default: || Box::new(MinefieldResponseNackPdu::default()),
      de: |b| MinefieldResponseNackPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| MinefieldResponseNackPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<MinefieldResponseNackPdu>(),
      down: |p| p.as_any().downcast_ref::<MinefieldResponseNackPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "EnvironmentalProcessPdu", type_value: 41, family: 9, pdu_type: PduType::EnvironmentalProcess,
      new: || Box::new(EnvironmentalProcessPdu::new()), default: || Box::new(EnvironmentalProcessPdu::default()),
      de: |b| EnvironmentalProcessPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EnvironmentalProcessPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EnvironmentalProcessPdu>(),
      down: |p| p.as_any().downcast_ref::<EnvironmentalProcessPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "GriddedDataPdu", type_value: 42, family: 9, pdu_type: PduType::GriddedData,
      new: || Box::new(GriddedDataPdu::new()), default: || Box::new(GriddedDataPdu::default()),
      de: |b| GriddedDataPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| GriddedDataPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<GriddedDataPdu>(),
      down: |p| p.as_any().downcast_ref::<GriddedDataPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "PointObjectStatePdu", type_value: 43, family: 9, pdu_type: PduType::PointObjectState,
      new: || Box::new(PointObjectStatePdu::new()), default: || Box::new(PointObjectStatePdu::default()),
      de: |b| PointObjectStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| PointObjectStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<PointObjectStatePdu>(),
      down: |p| p.as_any().downcast_ref::<PointObjectStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "LinearObjectStatePdu", type_value: 44, family: 9, pdu_type: PduType::LinearObjectState,
      new: || Box::new(LinearObjectStatePdu::new()), default: || Box::new(LinearObjectStatePdu::default()),
      de: |b| LinearObjectStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| LinearObjectStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<LinearObjectStatePdu>(),
      down: |p| p.as_any().downcast_ref::<LinearObjectStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ArealObjectStatePdu", type_value: 45, family: 9, pdu_type: PduType::ArealObjectState,
      new: || Box::new(ArealObjectStatePdu::new()), default: || Box::new(ArealObjectStatePdu::default()),
      de: |b| ArealObjectStatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ArealObjectStatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ArealObjectStatePdu>(),
      down: |p| p.as_any().downcast_ref::<ArealObjectStatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CreateEntityReliablePdu", type_value: 51, family: 10, pdu_type: PduType::CreateEntityReliable,
      new: || Box::new(CreateEntityReliablePdu::new()), default: || Box::new(CreateEntityReliablePdu::default()),
      de: |b| CreateEntityReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CreateEntityReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CreateEntityReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<CreateEntityReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "RemoveEntityReliablePdu", type_value: 52, family: 10, pdu_type: PduType::RemoveEntityReliable,
      new: || Box::new(RemoveEntityReliablePdu::new()), default: || Box::new(RemoveEntityReliablePdu::default()),
      de: |b| RemoveEntityReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| RemoveEntityReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<RemoveEntityReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<RemoveEntityReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "StartResumeReliablePdu", type_value: 53, family: 10, pdu_type: PduType::StartResumeReliable,
      new: || Box::new(StartResumeReliablePdu::new()), default: || Box::new(StartResumeReliablePdu::default()),
      de: |b| StartResumeReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| StartResumeReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<StartResumeReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<StartResumeReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "StopFreezeReliablePdu", type_value: 54, family: 10, pdu_type: PduType::StopFreezeReliable,
      new: || Box::new(StopFreezeReliablePdu::new()), default: || Box::new(StopFreezeReliablePdu::default()),
      de: |b| StopFreezeReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| StopFreezeReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<StopFreezeReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<StopFreezeReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "AcknowledgeReliablePdu", type_value: 55, family: 10, pdu_type: PduType::AcknowledgeReliable,
      new: || Box::new(AcknowledgeReliablePdu::new()), default: || Box::new(AcknowledgeReliablePdu::default()),
      de: |b| AcknowledgeReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| AcknowledgeReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<AcknowledgeReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<AcknowledgeReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ActionRequestReliablePdu", type_value: 56, family: 10, pdu_type: PduType::ActionRequestReliable,
      new: || Box::new(ActionRequestReliablePdu::new()), default: || Box::new(ActionRequestReliablePdu::default()),
      de: |b| ActionRequestReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ActionRequestReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ActionRequestReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<ActionRequestReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "ActionResponseReliablePdu", type_value: 57, family: 10, pdu_type: PduType::ActionResponseReliable,
      new: || Box::new(ActionResponseReliablePdu::new()), default: || Box::new(ActionResponseReliablePdu::default()),
      de: |b| ActionResponseReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| ActionResponseReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<ActionResponseReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<ActionResponseReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DataQueryReliablePdu", type_value: 58, family: 10, pdu_type: PduType::DataQueryReliable,
      new: || Box::new(DataQueryReliablePdu::new()), default: || Box::new(DataQueryReliablePdu::default()),
      de: |b| DataQueryReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DataQueryReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DataQueryReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<DataQueryReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "SetDataReliablePdu", type_value: 59, family: 10, pdu_type: PduType::SetDataReliable,
      new: || Box::new(SetDataReliablePdu::new()), default: || Box::new(SetDataReliablePdu::default()),
      de: |b| SetDataReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| SetDataReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<SetDataReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<SetDataReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DataReliablePdu", type_value: 60, family: 10, pdu_type: PduType::DataReliable,
      new: || Box::new(DataReliablePdu::new()), default: || Box::new(DataReliablePdu::default()),
      de: |b| DataReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DataReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DataReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<DataReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "EventReportReliablePdu", type_value: 61, family: 10, pdu_type: PduType::EventReportReliable,
      new: || Box::new(EventReportReliablePdu::new()), default: || Box::new(EventReportReliablePdu::default()),
      de: |b| EventReportReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EventReportReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EventReportReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<EventReportReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CommentReliablePdu", type_value: 62, family: 10, pdu_type: PduType::CommentReliable,
      new: || Box::new(CommentReliablePdu::new()), default: || Box::new(CommentReliablePdu::default()),
      de: |b| CommentReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CommentReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CommentReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<CommentReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "SetRecordReliablePdu", type_value: 64, family: 10, pdu_type: PduType::SetRecordReliable,
      new: || Box::new(SetRecordReliablePdu::new()), default: || Box::new(SetRecordReliablePdu::default()),
      de: |b| SetRecordReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| SetRecordReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<SetRecordReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<SetRecordReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "RecordQueryReliablePdu", type_value: 65, family: 10, pdu_type: PduType::RecordQueryReliable,
      new: || Box::new(RecordQueryReliablePdu::new()), default: || Box::new(RecordQueryReliablePdu::default()),
      de: |b| RecordQueryReliablePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| RecordQueryReliablePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<RecordQueryReliablePdu>(),
      down: |p| p.as_any().downcast_ref::<RecordQueryReliablePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "CollisionElasticPdu", type_value: 66, family: 1, pdu_type: PduType::CollisionElastic,
      new: || Box::new(CollisionElasticPdu::new()), default: || Box::new(CollisionElasticPdu::default()),
      de: |b| CollisionElasticPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| CollisionElasticPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<CollisionElasticPdu>(),
      down: |p| p.as_any().downcast_ref::<CollisionElasticPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "EntityStateUpdatePdu", type_value: 67, family: 1, pdu_type: PduType::EntityStateUpdate,
      new: || Box::new(EntityStateUpdatePdu::new()), default: || Box::new(EntityStateUpdatePdu::default()),
      de: |b| EntityStateUpdatePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EntityStateUpdatePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EntityStateUpdatePdu>(),
      down: |p| p.as_any().downcast_ref::<EntityStateUpdatePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "DirectedEnergyFirePdu", type_value: 68, family: 2, pdu_type: PduType::DirectedEnergyFire,
      new: || Box::new(DirectedEnergyFirePdu::new()), default: || Box::new(DirectedEnergyFirePdu::default()),
      de: |b| DirectedEnergyFirePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| DirectedEnergyFirePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<DirectedEnergyFirePdu>(),
      down: |p| p.as_any().downcast_ref::<DirectedEnergyFirePdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "EntityDamageStatusPdu", type_value: 69, family: 2, pdu_type: PduType::EntityDamageStatus,
      new: || Box::new(EntityDamageStatusPdu::new()), default: || Box::new(EntityDamageStatusPdu::default()),
      de: |b| EntityDamageStatusPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| EntityDamageStatusPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<EntityDamageStatusPdu>(),
      down: |p| p.as_any().downcast_ref::<EntityDamageStatusPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "InformationOperationsActionPdu", type_value: 70, family: 13, pdu_type: PduType::InformationOperationsAction,
      new: || Box::new(InformationOperationsActionPdu::new()), default: || Box::new(InformationOperationsActionPdu::default()),
      de: |b| InformationOperationsActionPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| InformationOperationsActionPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<InformationOperationsActionPdu>(),
      down: |p| p.as_any().downcast_ref::<InformationOperationsActionPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "InformationOperationsReportPdu", type_value: 71, family: 13, pdu_type: PduType::InformationOperationsReport,
      new: || Box::new(InformationOperationsReportPdu::new()), default: || Box::new(InformationOperationsReportPdu::default()),
      de: |b| InformationOperationsReportPdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| InformationOperationsReportPdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<InformationOperationsReportPdu>(),
      down: |p| p.as_any().downcast_ref::<InformationOperationsReportPdu>().map(|p| p as &dyn ModelPdu) },
    Kind { name: "AttributePdu", type_value: 72, family: 1, pdu_type: PduType::Attribute,
      new: || Box::new(AttributePdu::new()), default: || Box::new(AttributePdu::default()),
      de: |b| AttributePdu::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      de_wh: |b, h| AttributePdu::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),
      is: |p| p.as_any().is::<AttributePdu>(),
      down: |p| p.as_any().downcast_ref::<AttributePdu>().map(|p| p as &dyn ModelPdu) },
];
pub static RECORDS: &[RecordKind] = &[
    RecordKind { name: "AcousticBeamData", new: |g| Box::new(Holder(<AcousticBeamData as Model>::gen_(g))), ser: |r, b| r.downcast::<AcousticBeamData>().serialize(b),
      de: |b, _| Box::new(Holder(AcousticBeamData::deserialize(b))),
      fser: None, fde: None, len: None, const_len: None, via: Some(|r| { let t = take::<AcousticBeamData>(r); Box::new(Holder(AcousticBeamData::new(t.beam_data_length, t.beam_id_number, t.pad2, t.fundamental_data_parameters))) }) },
    RecordKind { name: "AcousticBeamFundamentalParameter", new: |g| Box::new(Holder(<AcousticBeamFundamentalParameter as Model>::gen_(g))), ser: |r, b| r.downcast::<AcousticBeamFundamentalParameter>().serialize(b),
      de: |b, _| Box::new(Holder(AcousticBeamFundamentalParameter::deserialize(b))),
      fser: None, fde: None, len: None, const_len: None, via: Some(|r| { let t = take::<AcousticBeamFundamentalParameter>(r); Box::new(Holder(AcousticBeamFundamentalParameter::new(t.active_emission_parameter_index, t.scan_pattern, t.beam_center_azimuth, t.azimuthal_beamwidth, t.beam_center_de, t.de_beamwidth))) }) },
    RecordKind { name: "AcousticEmitterSystem", new: |g| Box::new(Holder(<AcousticEmitterSystem as Model>::gen_(g))), ser: |r, b| r.downcast::<AcousticEmitterSystem>().serialize(b),
      de: |b, _| Box::new(Holder(AcousticEmitterSystem::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AcousticEmitterSystem>(), b)), fde: Some(|b, _| Box::new(Holder(<AcousticEmitterSystem as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AcousticEmitterSystem>())), const_len: None, via: Some(|r| { let t = take::<AcousticEmitterSystem>(r); Box::new(Holder(AcousticEmitterSystem::new(t.acoustic_name, t.acoustic_function, t.acoustic_id))) }) },
    RecordKind { name: "AcousticEmitterSystemData", new: |g| Box::new(Holder(<AcousticEmitterSystemData as Model>::gen_(g))), ser: |r, b| r.downcast::<AcousticEmitterSystemData>().serialize(b),
      de: |b, _| Box::new(Holder(AcousticEmitterSystemData::deserialize(b))),
      fser: None, fde: None, len: None, const_len: None, via: Some(|r| { let t = take::<AcousticEmitterSystemData>(r); Box::new(Holder(AcousticEmitterSystemData::new(t.emitter_system_data_length, t.number_of_beams, t.pad2, t.acoustic_emitter_system, t.emitter_location, t.beam_records))) }) },
    RecordKind { name: "AggregateId", new: |g| Box::new(Holder(<AggregateId as Model>::gen_(g))), ser: |r, b| r.downcast::<AggregateId>().serialize(b),
      de: |b, _| Box::new(Holder(AggregateId::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AggregateId>(), b)), fde: Some(|b, _| Box::new(Holder(<AggregateId as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AggregateId>())), const_len: None, via: Some(|r| { let t = take::<AggregateId>(r); Box::new(Holder(AggregateId::new(t.site, t.application, t.aggregate_id))) }) },
    RecordKind { name: "AggregateMarking", new: |g| Box::new(Holder(<AggregateMarking as Model>::gen_(g))), ser: |r, b| r.downcast::<AggregateMarking>().serialize(b),
      de: |b, _| Box::new(Holder(AggregateMarking::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AggregateMarking>(), b)), fde: Some(|b, _| Box::new(Holder(<AggregateMarking as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AggregateMarking>())), const_len: None, via: Some(|r| { let t = take::<AggregateMarking>(r); Box::new(Holder(AggregateMarking::new(t.character_set, t.characters))) }) },
    RecordKind { name: "AngularVelocity", new: |g| Box::new(Holder(<AngularVelocity as Model>::gen_(g))), ser: |r, b| r.downcast::<AngularVelocity>().serialize(b),
      de: |b, _| Box::new(Holder(AngularVelocity::deserialize(b))),
      fser: None, fde: None, len: None, const_len: Some(<AngularVelocity as SerializedLength>::LENGTH), via: None },
    RecordKind { name: "AntennaPattern", new: |g| Box::new(Holder(<AntennaPattern as Model>::gen_(g))), ser: |r, b| r.downcast::<AntennaPattern>().serialize(b),
      de: |b, len| Box::new(Holder(AntennaPattern::deserialize(b, len as u16).unwrap_or_default())),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AntennaPattern>(), b)),
      fde: Some(|b, len| Box::new(Holder(<AntennaPattern as open_dis_rust::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(b, len)))),
      len: Some(|r| FieldLen::field_len(r.downcast::<AntennaPattern>())), const_len: None, via: None },
    RecordKind { name: "ApaData", new: |g| Box::new(Holder(<ApaData as Model>::gen_(g))), ser: |r, b| r.downcast::<ApaData>().serialize(b),
      de: |b, _| Box::new(Holder(ApaData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ApaData>(), b)), fde: Some(|b, _| Box::new(Holder(<ApaData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ApaData>())), const_len: Some(<ApaData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<ApaData>(r); Box::new(Holder(ApaData::new(t.parameter_index, t.parameter_value))) }) },
    RecordKind { name: "AttributeRecord", new: |g| Box::new(Holder(<AttributeRecord as Model>::gen_(g))), ser: |r, b| r.downcast::<AttributeRecord>().serialize(b),
      de: |b, _| Box::new(Holder(AttributeRecord::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AttributeRecord>(), b)), fde: Some(|b, _| Box::new(Holder(<AttributeRecord as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AttributeRecord>())), const_len: None, via: None },
    RecordKind { name: "AttributeRecordSet", new: |g| Box::new(Holder(<AttributeRecordSet as Model>::gen_(g))), ser: |r, b| r.downcast::<AttributeRecordSet>().serialize(b),
      de: |b, _| Box::new(Holder(AttributeRecordSet::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AttributeRecordSet>(), b)), fde: Some(|b, _| Box::new(Holder(<AttributeRecordSet as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AttributeRecordSet>())), const_len: None, via: None },
    RecordKind { name: "BeamData", new: |g| Box::new(Holder(<BeamData as Model>::gen_(g))), ser: |r, b| r.downcast::<BeamData>().serialize(b),
      de: |b, _| Box::new(Holder(BeamData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<BeamData>(), b)), fde: Some(|b, _| Box::new(Holder(<BeamData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<BeamData>())), const_len: Some(<BeamData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<BeamData>(r); Box::new(Holder(BeamData::new(t.beam_azimuth_center, t.beam_azimuth_sweep, t.beam_elevation_center, t.beam_elevation_sweep, t.beam_sweep_sync))) }) },
    RecordKind { name: "ClockTime", new: |g| Box::new(Holder(<ClockTime as Model>::gen_(g))), ser: |r, b| r.downcast::<ClockTime>().serialize(b),
      de: |b, _| Box::new(Holder(ClockTime::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ClockTime>(), b)), fde: Some(|b, _| Box::new(Holder(<ClockTime as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ClockTime>())), const_len: None, via: Some(|r| { let t = take::<ClockTime>(r); Box::new(Holder(ClockTime::new(t.hour, t.time_past_hour))) }) },
    RecordKind { name: "DeadReckoningParameters", new: |g| Box::new(Holder(<DeadReckoningParameters as Model>::gen_(g))), ser: |r, b| r.downcast::<DeadReckoningParameters>().serialize(b),
      de: |b, _| Box::new(Holder(DeadReckoningParameters::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DeadReckoningParameters>(), b)), fde: Some(|b, _| Box::new(Holder(<DeadReckoningParameters as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DeadReckoningParameters>())), const_len: Some(<DeadReckoningParameters as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<DeadReckoningParameters>(r); let mut n = DeadReckoningParameters::new(t.dead_reckoning_algorithm, t.entity_linear_acceleration, t.entity_angular_velocity); n.dead_reckoning_other_parameters = t.dead_reckoning_other_parameters; Box::new(Holder(n)) }) },
    RecordKind { name: "DirectedEnergyDamage", new: |g| Box::new(Holder(<DirectedEnergyDamage as Model>::gen_(g))), ser: |r, b| r.downcast::<DirectedEnergyDamage>().serialize(b),
      de: |b, _| Box::new(Holder(DirectedEnergyDamage::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DirectedEnergyDamage>(), b)), fde: Some(|b, _| Box::new(Holder(<DirectedEnergyDamage as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DirectedEnergyDamage>())), const_len: None, via: None },
    RecordKind { name: "ElectromagneticEmissionBeamData", new: |g| Box::new(Holder(<ElectromagneticEmissionBeamData as Model>::gen_(g))), ser: |r, b| r.downcast::<ElectromagneticEmissionBeamData>().serialize(b),
      de: |b, _| Box::new(Holder(ElectromagneticEmissionBeamData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ElectromagneticEmissionBeamData>(), b)), fde: Some(|b, _| Box::new(Holder(<ElectromagneticEmissionBeamData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ElectromagneticEmissionBeamData>())), const_len: None, via: None },
    RecordKind { name: "ElectromagneticEmissionSystemData", new: |g| Box::new(Holder(<ElectromagneticEmissionSystemData as Model>::gen_(g))), ser: |r, b| r.downcast::<ElectromagneticEmissionSystemData>().serialize(b),
      de: |b, _| Box::new(Holder(ElectromagneticEmissionSystemData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ElectromagneticEmissionSystemData>(), b)), fde: Some(|b, _| Box::new(Holder(<ElectromagneticEmissionSystemData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ElectromagneticEmissionSystemData>())), const_len: None, via: None },
    RecordKind { name: "EmitterSystem", new: |g| Box::new(Holder(<EmitterSystem as Model>::gen_(g))), ser: |r, b| r.downcast::<EmitterSystem>().serialize(b),
      de: |b, _| Box::new(Holder(EmitterSystem::deserialize(b))),
      fser: None, fde: None, len: None, const_len: Some(<EmitterSystem as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EmitterSystem>(r); Box::new(Holder(EmitterSystem::new(t.emitter_name, t.function, t.emitter_id_number))) }) },
    RecordKind { name: "EntityCoordinateVector", new: |g| Box::new(Holder(<EntityCoordinateVector as Model>::gen_(g))), ser: |r, b| r.downcast::<EntityCoordinateVector>().serialize(b),
      de: |b, _| Box::new(Holder(EntityCoordinateVector::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EntityCoordinateVector>(), b)), fde: Some(|b, _| Box::new(Holder(<EntityCoordinateVector as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EntityCoordinateVector>())), const_len: Some(<EntityCoordinateVector as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EntityCoordinateVector>(r); Box::new(Holder(EntityCoordinateVector::new(t.x_coordinate, t.y_coordinate, t.z_coordinate))) }) },
    RecordKind { name: "EntityId", new: |g| Box::new(Holder(<EntityId as Model>::gen_(g))), ser: |r, b| r.downcast::<EntityId>().serialize(b),
      de: |b, _| Box::new(Holder(EntityId::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EntityId>(), b)), fde: Some(|b, _| Box::new(Holder(<EntityId as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EntityId>())), const_len: Some(<EntityId as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EntityId>(r); Box::new(Holder(EntityId::new(t.simulation_address.site_id, t.simulation_address.application_id, t.entity_id))) }) },
    RecordKind { name: "EntityMarking", new: |g| Box::new(Holder(<EntityMarking as Model>::gen_(g))), ser: |r, b| r.downcast::<EntityMarking>().serialize(b),
      de: |b, _| Box::new(Holder(EntityMarking::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EntityMarking>(), b)), fde: Some(|b, _| Box::new(Holder(<EntityMarking as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EntityMarking>())), const_len: Some(<EntityMarking as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EntityMarking>(r); Box::new(Holder(EntityMarking::new(t.entity_marking_character_set, t.entity_marking_string))) }) },
    RecordKind { name: "EntityType", new: |g| Box::new(Holder(<EntityType as Model>::gen_(g))), ser: |r, b| r.downcast::<EntityType>().serialize(b),
      de: |b, _| Box::new(Holder(EntityType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EntityType>(), b)), fde: Some(|b, _| Box::new(Holder(<EntityType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EntityType>())), const_len: Some(<EntityType as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EntityType>(r); Box::new(Holder(EntityType::new(t.kind, t.domain, t.country, t.category, t.subcategory, t.specific, t.extra))) }) },
    RecordKind { name: "Environment", new: |g| Box::new(Holder(<Environment as Model>::gen_(g))), ser: |r, b| r.downcast::<Environment>().serialize(b),
      de: |b, _| Box::new(Holder(Environment::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<Environment>(), b)), fde: Some(|b, _| Box::new(Holder(<Environment as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<Environment>())), const_len: None, via: Some(|r| { let t = take::<Environment>(r); Box::new(Holder(Environment::new(t.environment_type, t.length, t.index, t.padding))) }) },
    RecordKind { name: "EulerAngles", new: |g| Box::new(Holder(<EulerAngles as Model>::gen_(g))), ser: |r, b| r.downcast::<EulerAngles>().serialize(b),
      de: |b, _| Box::new(Holder(EulerAngles::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EulerAngles>(), b)), fde: Some(|b, _| Box::new(Holder(<EulerAngles as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EulerAngles>())), const_len: Some(<EulerAngles as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EulerAngles>(r); Box::new(Holder(EulerAngles::new(t.psi, t.theta, t.phi))) }) },
    RecordKind { name: "EventId", new: |g| Box::new(Holder(<EventId as Model>::gen_(g))), ser: |r, b| r.downcast::<EventId>().serialize(b),
      de: |b, _| Box::new(Holder(EventId::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EventId>(), b)), fde: Some(|b, _| Box::new(Holder(<EventId as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EventId>())), const_len: Some(<EventId as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<EventId>(r); Box::new(Holder(EventId::new(t.simulation_address.site_id, t.simulation_address.application_id, t.event_identifier))) }) },
    RecordKind { name: "FixedDatumRecord", new: |g| Box::new(Holder(<FixedDatumRecord as Model>::gen_(g))), ser: |r, b| r.downcast::<FixedDatumRecord>().serialize(b),
      de: |b, _| Box::new(Holder(FixedDatumRecord::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<FixedDatumRecord>(), b)), fde: Some(|b, _| Box::new(Holder(<FixedDatumRecord as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<FixedDatumRecord>())), const_len: None, via: None },
    RecordKind { name: "FundamentalOperationalData", new: |g| Box::new(Holder(<FundamentalOperationalData as Model>::gen_(g))), ser: |r, b| r.downcast::<FundamentalOperationalData>().serialize(b),
      de: |b, _| Box::new(Holder(FundamentalOperationalData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<FundamentalOperationalData>(), b)), fde: Some(|b, _| Box::new(Holder(<FundamentalOperationalData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<FundamentalOperationalData>())), const_len: Some(<FundamentalOperationalData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<FundamentalOperationalData>(r); Box::new(Holder(FundamentalOperationalData::new(t.system_status, t.data_field1, t.information_layers, t.data_field2, t.parameter1, t.parameter2, t.parameter3, t.parameter4, t.parameter5, t.parameter6))) }) },
    RecordKind { name: "FundamentalParameterData", new: |g| Box::new(Holder(<FundamentalParameterData as Model>::gen_(g))), ser: |r, b| r.downcast::<FundamentalParameterData>().serialize(b),
      de: |b, _| Box::new(Holder(FundamentalParameterData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<FundamentalParameterData>(), b)), fde: Some(|b, _| Box::new(Holder(<FundamentalParameterData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<FundamentalParameterData>())), const_len: None, via: None },
    RecordKind { name: "GridAxisDescriptor", new: |g| Box::new(Holder(<GridAxisDescriptor as Model>::gen_(g))), ser: |r, b| r.downcast::<GridAxisDescriptor>().serialize(b),
      de: |b, _| Box::new(Holder(GridAxisDescriptor::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GridAxisDescriptor>(), b)), fde: Some(|b, _| Box::new(Holder(<GridAxisDescriptor as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GridAxisDescriptor>())), const_len: None, via: Some(|r| { let t = take::<GridAxisDescriptor>(r); Box::new(Holder(GridAxisDescriptor::new(t.domain_initial, t.domain_final, t.domain_points, t.interleaf_factor, t.axis_type, t.data))) }) },
    RecordKind { name: "GridDataRecord", new: |g| Box::new(Holder(<GridDataRecord as Model>::gen_(g))), ser: |r, b| r.downcast::<GridDataRecord>().serialize(b),
      de: |b, _| Box::new(Holder(GridDataRecord::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GridDataRecord>(), b)), fde: Some(|b, _| Box::new(Holder(<GridDataRecord as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GridDataRecord>())), const_len: None, via: Some(|r| { let t = take::<GridDataRecord>(r); Box::new(Holder(GridDataRecord::new(t.sample_type, t.data_representation, t.data))) }) },
    RecordKind { name: "IFFFundamentalParameterData", new: |g| Box::new(Holder(<IFFFundamentalParameterData as Model>::gen_(g))), ser: |r, b| r.downcast::<IFFFundamentalParameterData>().serialize(b),
      de: |b, _| Box::new(Holder(IFFFundamentalParameterData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IFFFundamentalParameterData>(), b)), fde: Some(|b, _| Box::new(Holder(<IFFFundamentalParameterData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IFFFundamentalParameterData>())), const_len: Some(<IFFFundamentalParameterData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<IFFFundamentalParameterData>(r); Box::new(Holder(IFFFundamentalParameterData::new(t.erp, t.frequency, t.pgrf, t.pulse_width, t.burst_length, t.applicable_modes, t.system_specific_data))) }) },
    RecordKind { name: "IntercomCommunicationsParameters", new: |g| Box::new(Holder(<IntercomCommunicationsParameters as Model>::gen_(g))), ser: |r, b| r.downcast::<IntercomCommunicationsParameters>().serialize(b),
      de: |b, _| Box::new(Holder(IntercomCommunicationsParameters::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IntercomCommunicationsParameters>(), b)), fde: Some(|b, _| Box::new(Holder(<IntercomCommunicationsParameters as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IntercomCommunicationsParameters>())), const_len: None, via: Some(|r| { let t = take::<IntercomCommunicationsParameters>(r); Box::new(Holder(IntercomCommunicationsParameters::new(t.record_type, t.record_length, t.record_specific_field))) }) },
    RecordKind { name: "LayerHeader", new: |g| Box::new(Holder(<LayerHeader as Model>::gen_(g))), ser: |r, b| r.downcast::<LayerHeader>().serialize(b),
      de: |b, _| Box::new(Holder(LayerHeader::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<LayerHeader>(), b)), fde: Some(|b, _| Box::new(Holder(<LayerHeader as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<LayerHeader>())), const_len: Some(<LayerHeader as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<LayerHeader>(r); Box::new(Holder(LayerHeader::new(t.layer_number, t.layer_specific_information, t.length))) }) },
    RecordKind { name: "LinearAcceleration", new: |g| Box::new(Holder(<LinearAcceleration as Model>::gen_(g))), ser: |r, b| r.downcast::<LinearAcceleration>().serialize(b),
      de: |b, _| Box::new(Holder(LinearAcceleration::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<LinearAcceleration>(), b)), fde: Some(|b, _| Box::new(Holder(<LinearAcceleration as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<LinearAcceleration>())), const_len: Some(<LinearAcceleration as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<LinearAcceleration>(r); Box::new(Holder(LinearAcceleration::new(t.first_vector_component, t.second_vector_component, t.third_vector_component))) }) },
    RecordKind { name: "LinearSegmentParameter", new: |g| Box::new(Holder(<LinearSegmentParameter as Model>::gen_(g))), ser: |r, b| r.downcast::<LinearSegmentParameter>().serialize(b),
      de: |b, _| Box::new(Holder(LinearSegmentParameter::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<LinearSegmentParameter>(), b)), fde: Some(|b, _| Box::new(Holder(<LinearSegmentParameter as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<LinearSegmentParameter>())), const_len: None, via: None },
    RecordKind { name: "LinearVelocity", new: |g| Box::new(Holder(<LinearVelocity as Model>::gen_(g))), ser: |r, b| r.downcast::<LinearVelocity>().serialize(b),
      de: |b, _| Box::new(Holder(LinearVelocity::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<LinearVelocity>(), b)), fde: Some(|b, _| Box::new(Holder(<LinearVelocity as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<LinearVelocity>())), const_len: Some(<LinearVelocity as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<LinearVelocity>(r); Box::new(Holder(LinearVelocity::new(t.first_vector_component, t.second_vector_component, t.third_vector_component))) }) },
    RecordKind { name: "MinefieldIdentifier", new: |g| Box::new(Holder(<MinefieldIdentifier as Model>::gen_(g))), ser: |r, b| r.downcast::<MinefieldIdentifier>().serialize(b),
      de: |b, _| Box::new(Holder(MinefieldIdentifier::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<MinefieldIdentifier>(), b)), fde: Some(|b, _| Box::new(Holder(<MinefieldIdentifier as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<MinefieldIdentifier>())), const_len: None, via: Some(|r| { let t = take::<MinefieldIdentifier>(r); Box::new(Holder(MinefieldIdentifier::new(t.simulation_address, t.minefield_number))) }) },
    RecordKind { name: "ModulationParameters", new: |g| Box::new(Holder(<ModulationParameters as Model>::gen_(g))), ser: |r, b| r.downcast::<ModulationParameters>().serialize(b),
      de: |b, len| Box::new(Holder(ModulationParameters::deserialize(b, len as u8).unwrap_or_default())),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ModulationParameters>(), b)),
      fde: Some(|b, len| Box::new(Holder(<ModulationParameters as open_dis_rust::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(b, len)))),
      len: Some(|r| FieldLen::field_len(r.downcast::<ModulationParameters>())), const_len: None, via: None },
    RecordKind { name: "ModulationType", new: |g| Box::new(Holder(<ModulationType as Model>::gen_(g))), ser: |r, b| r.downcast::<ModulationType>().serialize(b),
      de: |b, _| Box::new(Holder(ModulationType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ModulationType>(), b)), fde: Some(|b, _| Box::new(Holder(<ModulationType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ModulationType>())), const_len: None, via: Some(|r| { let t = take::<ModulationType>(r); Box::new(Holder(ModulationType::new(t.spread_spectrum, t.major, t.detail, t.system))) }) },
    RecordKind { name: "MunitionDescriptor", new: |g| Box::new(Holder(<MunitionDescriptor as Model>::gen_(g))), ser: |r, b| r.downcast::<MunitionDescriptor>().serialize(b),
      de: |b, _| Box::new(Holder(MunitionDescriptor::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<MunitionDescriptor>(), b)), fde: Some(|b, _| Box::new(Holder(<MunitionDescriptor as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<MunitionDescriptor>())), const_len: None, via: Some(|r| { let t = take::<MunitionDescriptor>(r); Box::new(Holder(MunitionDescriptor::new(t.munition_type, t.warhead, t.fuse, t.quantity, t.rate))) }) },
    RecordKind { name: "NamedLocation", new: |g| Box::new(Holder(<NamedLocation as Model>::gen_(g))), ser: |r, b| r.downcast::<NamedLocation>().serialize(b),
      de: |b, _| Box::new(Holder(NamedLocation::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<NamedLocation>(), b)), fde: Some(|b, _| Box::new(Holder(<NamedLocation as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<NamedLocation>())), const_len: None, via: Some(|r| { let t = take::<NamedLocation>(r); Box::new(Holder(NamedLocation::new(t.station_name, t.station_number))) }) },
    RecordKind { name: "ObjectIdentifier", new: |g| Box::new(Holder(<ObjectIdentifier as Model>::gen_(g))), ser: |r, b| r.downcast::<ObjectIdentifier>().serialize(b),
      de: |b, _| Box::new(Holder(ObjectIdentifier::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ObjectIdentifier>(), b)), fde: Some(|b, _| Box::new(Holder(<ObjectIdentifier as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ObjectIdentifier>())), const_len: None, via: None },
    RecordKind { name: "ObjectType", new: |g| Box::new(Holder(<ObjectType as Model>::gen_(g))), ser: |r, b| r.downcast::<ObjectType>().serialize(b),
      de: |b, _| Box::new(Holder(ObjectType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ObjectType>(), b)), fde: Some(|b, _| Box::new(Holder(<ObjectType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ObjectType>())), const_len: None, via: Some(|r| { let t = take::<ObjectType>(r); Box::new(Holder(ObjectType::new(t.domain, t.object_kind, t.category, t.subcategory))) }) },
    RecordKind { name: "Point", new: |g| Box::new(Holder(<Point as Model>::gen_(g))), ser: |r, b| r.downcast::<Point>().serialize(b),
      de: |b, _| Box::new(Holder(Point::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<Point>(), b)), fde: Some(|b, _| Box::new(Holder(<Point as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<Point>())), const_len: None, via: Some(|r| { let t = take::<Point>(r); Box::new(Holder(Point::new(t.x, t.y))) }) },
    RecordKind { name: "PropulsionSystemData", new: |g| Box::new(Holder(<PropulsionSystemData as Model>::gen_(g))), ser: |r, b| r.downcast::<PropulsionSystemData>().serialize(b),
      de: |b, _| Box::new(Holder(PropulsionSystemData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<PropulsionSystemData>(), b)), fde: Some(|b, _| Box::new(Holder(<PropulsionSystemData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<PropulsionSystemData>())), const_len: Some(<PropulsionSystemData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<PropulsionSystemData>(r); Box::new(Holder(PropulsionSystemData::new(t.power_setting, t.engine_rpm))) }) },
    RecordKind { name: "RadioEntityType", new: |g| Box::new(Holder(<RadioEntityType as Model>::gen_(g))), ser: |r, b| r.downcast::<RadioEntityType>().serialize(b),
      de: |b, _| Box::new(Holder(RadioEntityType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RadioEntityType>(), b)), fde: Some(|b, _| Box::new(Holder(<RadioEntityType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RadioEntityType>())), const_len: None, via: Some(|r| { let t = take::<RadioEntityType>(r); Box::new(Holder(RadioEntityType::new(t.entity_kind, t.domain, t.country, t.category, t.nomenclature_version, t.nomenclature))) }) },
    RecordKind { name: "RecordSpecification", new: |g| Box::new(Holder(<RecordSpecification as Model>::gen_(g))), ser: |r, b| r.downcast::<RecordSpecification>().serialize(b),
      de: |b, _| Box::new(Holder(RecordSpecification::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RecordSpecification>(), b)), fde: Some(|b, _| Box::new(Holder(<RecordSpecification as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RecordSpecification>())), const_len: None, via: Some(|r| { let t = take::<RecordSpecification>(r); Box::new(Holder(RecordSpecification::new(t.number_of_record_sets, t.record_sets))) }) },
    RecordKind { name: "RecordSpecificationElement", new: |g| Box::new(Holder(<RecordSpecificationElement as Model>::gen_(g))), ser: |r, b| r.downcast::<RecordSpecificationElement>().serialize(b),
      de: |b, _| Box::new(Holder(RecordSpecificationElement::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RecordSpecificationElement>(), b)), fde: Some(|b, _| Box::new(Holder(<RecordSpecificationElement as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RecordSpecificationElement>())), const_len: None, via: Some(|r| { let t = take::<RecordSpecificationElement>(r); Box::new(Holder(RecordSpecificationElement::new(t.record_id, t.record_set_serial_number, t.record_length, t.record_count, t.record_values))) }) },
    RecordKind { name: "Relationship", new: |g| Box::new(Holder(<Relationship as Model>::gen_(g))), ser: |r, b| r.downcast::<Relationship>().serialize(b),
      de: |b, _| Box::new(Holder(Relationship::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<Relationship>(), b)), fde: Some(|b, _| Box::new(Holder(<Relationship as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<Relationship>())), const_len: None, via: Some(|r| { let t = take::<Relationship>(r); Box::new(Holder(Relationship::new(t.nature, t.position))) }) },
    RecordKind { name: "SecondaryOperationalData", new: |g| Box::new(Holder(<SecondaryOperationalData as Model>::gen_(g))), ser: |r, b| r.downcast::<SecondaryOperationalData>().serialize(b),
      de: |b, _| Box::new(Holder(SecondaryOperationalData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SecondaryOperationalData>(), b)), fde: Some(|b, _| Box::new(Holder(<SecondaryOperationalData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SecondaryOperationalData>())), const_len: Some(<SecondaryOperationalData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<SecondaryOperationalData>(r); Box::new(Holder(SecondaryOperationalData::new(t.operational_data1, t.operational_data2, t.number_of_iff_fundamental_parameter_records))) }) },
    RecordKind { name: "ShaftRPMs", new: |g| Box::new(Holder(<ShaftRPMs as Model>::gen_(g))), ser: |r, b| r.downcast::<ShaftRPMs>().serialize(b),
      de: |b, _| Box::new(Holder(ShaftRPMs::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ShaftRPMs>(), b)), fde: Some(|b, _| Box::new(Holder(<ShaftRPMs as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ShaftRPMs>())), const_len: Some(<ShaftRPMs as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<ShaftRPMs>(r); Box::new(Holder(ShaftRPMs::new(t.current_shaft_rpms, t.ordered_shaft_rpms, t.shaft_rpm_rate_of_change))) }) },
    RecordKind { name: "SimulationAddress", new: |g| Box::new(Holder(<SimulationAddress as Model>::gen_(g))), ser: |r, b| r.downcast::<SimulationAddress>().serialize(b),
      de: |b, _| Box::new(Holder(SimulationAddress::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SimulationAddress>(), b)), fde: Some(|b, _| Box::new(Holder(<SimulationAddress as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SimulationAddress>())), const_len: Some(<SimulationAddress as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<SimulationAddress>(r); Box::new(Holder(SimulationAddress::new(t.site_id, t.application_id))) }) },
    RecordKind { name: "SimulationIdentifier", new: |g| Box::new(Holder(<SimulationIdentifier as Model>::gen_(g))), ser: |r, b| r.downcast::<SimulationIdentifier>().serialize(b),
      de: |b, _| Box::new(Holder(SimulationIdentifier::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SimulationIdentifier>(), b)), fde: Some(|b, _| Box::new(Holder(<SimulationIdentifier as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SimulationIdentifier>())), const_len: Some(<SimulationIdentifier as SerializedLength>::LENGTH), via: None },
    RecordKind { name: "StandardVariableRecords", new: |g| Box::new(Holder(<StandardVariableRecords as Model>::gen_(g))), ser: |r, b| r.downcast::<StandardVariableRecords>().serialize(b),
      de: |b, _| Box::new(Holder(StandardVariableRecords::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<StandardVariableRecords>(), b)), fde: Some(|b, _| Box::new(Holder(<StandardVariableRecords as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<StandardVariableRecords>())), const_len: None, via: Some(|r| { let t = take::<StandardVariableRecords>(r); Box::new(Holder(StandardVariableRecords::new(t.record_type, t.record_length, t.record_specific_fields))) }) },
    RecordKind { name: "StandardVariableSpecification", new: |g| Box::new(Holder(<StandardVariableSpecification as Model>::gen_(g))), ser: |r, b| r.downcast::<StandardVariableSpecification>().serialize(b),
      de: |b, _| Box::new(Holder(StandardVariableSpecification::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<StandardVariableSpecification>(), b)), fde: Some(|b, _| Box::new(Holder(<StandardVariableSpecification as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<StandardVariableSpecification>())), const_len: None, via: Some(|r| { let t = take::<StandardVariableSpecification>(r); Box::new(Holder(StandardVariableSpecification::new(t.number_of_standard_variable_records, t.standard_variable_records))) }) },
    RecordKind { name: "SupplyQuantity", new: |g| Box::new(Holder(<SupplyQuantity as Model>::gen_(g))), ser: |r, b| r.downcast::<SupplyQuantity>().serialize(b),
      de: |b, _| Box::new(Holder(SupplyQuantity::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SupplyQuantity>(), b)), fde: Some(|b, _| Box::new(Holder(<SupplyQuantity as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SupplyQuantity>())), const_len: None, via: Some(|r| { let t = take::<SupplyQuantity>(r); Box::new(Holder(SupplyQuantity::new(t.supply_type, t.quantity))) }) },
    RecordKind { name: "SystemId", new: |g| Box::new(Holder(<SystemId as Model>::gen_(g))), ser: |r, b| r.downcast::<SystemId>().serialize(b),
      de: |b, _| Box::new(Holder(SystemId::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SystemId>(), b)), fde: Some(|b, _| Box::new(Holder(<SystemId as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SystemId>())), const_len: Some(<SystemId as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<SystemId>(r); Box::new(Holder(SystemId::new(t.system_type, t.system_name, t.system_mode, t.change_options))) }) },
    RecordKind { name: "TrackJamTarget", new: |g| Box::new(Holder(<TrackJamTarget as Model>::gen_(g))), ser: |r, b| r.downcast::<TrackJamTarget>().serialize(b),
      de: |b, _| Box::new(Holder(TrackJamTarget::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TrackJamTarget>(), b)), fde: Some(|b, _| Box::new(Holder(<TrackJamTarget as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TrackJamTarget>())), const_len: None, via: None },
    RecordKind { name: "VariableDatumRecord", new: |g| Box::new(Holder(<VariableDatumRecord as Model>::gen_(g))), ser: |r, b| r.downcast::<VariableDatumRecord>().serialize(b),
      de: |b, _| Box::new(Holder(VariableDatumRecord::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<VariableDatumRecord>(), b)), fde: Some(|b, _| Box::new(Holder(<VariableDatumRecord as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<VariableDatumRecord>())), const_len: None, via: None },
    RecordKind { name: "VariableParameter", new: |g| Box::new(Holder(<VariableParameter as Model>::gen_(g))), ser: |r, b| r.downcast::<VariableParameter>().serialize(b),
      de: |b, _| Box::new(Holder(VariableParameter::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<VariableParameter>(), b)), fde: Some(|b, _| Box::new(Holder(<VariableParameter as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<VariableParameter>())), const_len: Some(<VariableParameter as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<VariableParameter>(r); Box::new(Holder(VariableParameter::new(t.record_type, t.variable_parameter_field1, t.variable_parameter_field2, t.variable_parameter_field3, t.variable_parameter_field4))) }) },
    RecordKind { name: "VariableTransmitterParameters", new: |g| Box::new(Holder(<VariableTransmitterParameters as Model>::gen_(g))), ser: |r, b| r.downcast::<VariableTransmitterParameters>().serialize(b),
      de: |b, _| Box::new(Holder(VariableTransmitterParameters::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<VariableTransmitterParameters>(), b)), fde: Some(|b, _| Box::new(Holder(<VariableTransmitterParameters as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<VariableTransmitterParameters>())), const_len: None, via: None },
    RecordKind { name: "Vector3Double", new: |g| Box::new(Holder(<Vector3Double as Model>::gen_(g))), ser: |r, b| r.downcast::<Vector3Double>().serialize(b),
      de: |b, _| Box::new(Holder(Vector3Double::deserialize(b))),
      fser: None, fde: None, len: None, const_len: Some(<Vector3Double as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<Vector3Double>(r); Box::new(Holder(Vector3Double::new(t.x, t.y, t.z))) }) },
    RecordKind { name: "Vector3Float", new: |g| Box::new(Holder(<Vector3Float as Model>::gen_(g))), ser: |r, b| r.downcast::<Vector3Float>().serialize(b),
      de: |b, _| Box::new(Holder(Vector3Float::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<Vector3Float>(), b)), fde: Some(|b, _| Box::new(Holder(<Vector3Float as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<Vector3Float>())), const_len: None, via: Some(|r| { let t = take::<Vector3Float>(r); Box::new(Holder(Vector3Float::new(t.x, t.y, t.z))) }) },
    RecordKind { name: "VectoringNozzleSystemData", new: |g| Box::new(Holder(<VectoringNozzleSystemData as Model>::gen_(g))), ser: |r, b| r.downcast::<VectoringNozzleSystemData>().serialize(b),
      de: |b, _| Box::new(Holder(VectoringNozzleSystemData::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<VectoringNozzleSystemData>(), b)), fde: Some(|b, _| Box::new(Holder(<VectoringNozzleSystemData as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<VectoringNozzleSystemData>())), const_len: Some(<VectoringNozzleSystemData as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<VectoringNozzleSystemData>(r); Box::new(Holder(VectoringNozzleSystemData::new(t.horizontal_deflection_angle, t.vertical_deflection_angle))) }) },
    RecordKind { name: "VelocityVector", new: |g| Box::new(Holder(<VelocityVector as Model>::gen_(g))), ser: |r, b| r.downcast::<VelocityVector>().serialize(b),
      de: |b, _| Box::new(Holder(VelocityVector::deserialize(b))),
      fser: None, fde: None, len: None, const_len: None, via: Some(|r| { let t = take::<VelocityVector>(r); Box::new(Holder(VelocityVector::new(t.first_vector_component, t.second_vector_component, t.third_vector_component))) }) },
    RecordKind { name: "WorldCoordinate", new: |g| Box::new(Holder(<WorldCoordinate as Model>::gen_(g))), ser: |r, b| r.downcast::<WorldCoordinate>().serialize(b),
      de: |b, _| Box::new(Holder(WorldCoordinate::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<WorldCoordinate>(), b)), fde: Some(|b, _| Box::new(Holder(<WorldCoordinate as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<WorldCoordinate>())), const_len: Some(<WorldCoordinate as SerializedLength>::LENGTH), via: Some(|r| { let t = take::<WorldCoordinate>(r); Box::new(Holder(WorldCoordinate::new(t.x, t.y, t.z))) }) },
    RecordKind { name: "PduHeader", new: |g| Box::new(Holder(<PduHeader as Model>::gen_(g))), ser: |r, b| GenericHeader::serialize(r.downcast::<PduHeader>(), b),
      de: |b, _| Box::new(Holder(<PduHeader as GenericHeader>::deserialize(b))), fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<PduHeader>(), b)), fde: Some(|b, _| Box::new(Holder(<PduHeader as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<PduHeader>())), const_len: Some(<PduHeader as SerializedLength>::LENGTH), via: Some(|r| Box::new(Holder(take::<PduHeader>(r).anew()))) },
    RecordKind { name: "LiveEntityPduHeader", new: |g| Box::new(Holder(<LiveEntityPduHeader as Model>::gen_(g))), ser: |r, b| GenericHeader::serialize(r.downcast::<LiveEntityPduHeader>(), b),
      de: |b, _| Box::new(Holder(<LiveEntityPduHeader as GenericHeader>::deserialize(b))), fser: None, fde: None, len: None, const_len: Some(<LiveEntityPduHeader as SerializedLength>::LENGTH), via: Some(|r| Box::new(Holder(take::<LiveEntityPduHeader>(r).anew()))) },
    RecordKind { name: "AcknowledgeFlag", new: |g| Box::new(Holder(<AcknowledgeFlag as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<AcknowledgeFlag>(), b),
      de: |b, _| Box::new(Holder(AcknowledgeFlag::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AcknowledgeFlag>(), b)), fde: Some(|b, _| Box::new(Holder(<AcknowledgeFlag as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AcknowledgeFlag>())), const_len: None, via: None },
    RecordKind { name: "AcknowledgeResponseFlag", new: |g| Box::new(Holder(<AcknowledgeResponseFlag as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<AcknowledgeResponseFlag>(), b),
      de: |b, _| Box::new(Holder(AcknowledgeResponseFlag::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AcknowledgeResponseFlag>(), b)), fde: Some(|b, _| Box::new(Holder(<AcknowledgeResponseFlag as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AcknowledgeResponseFlag>())), const_len: None, via: None },
    RecordKind { name: "ActionResponseRequestStatus", new: |g| Box::new(Holder(<ActionResponseRequestStatus as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ActionResponseRequestStatus>(), b),
      de: |b, _| Box::new(Holder(ActionResponseRequestStatus::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ActionResponseRequestStatus>(), b)), fde: Some(|b, _| Box::new(Holder(<ActionResponseRequestStatus as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ActionResponseRequestStatus>())), const_len: None, via: None },
    RecordKind { name: "AggregateStateAggregateState", new: |g| Box::new(Holder(<AggregateStateAggregateState as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<AggregateStateAggregateState>(), b),
      de: |b, _| Box::new(Holder(AggregateStateAggregateState::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AggregateStateAggregateState>(), b)), fde: Some(|b, _| Box::new(Holder(<AggregateStateAggregateState as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AggregateStateAggregateState>())), const_len: None, via: None },
    RecordKind { name: "AggregateStateFormation", new: |g| Box::new(Holder(<AggregateStateFormation as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<AggregateStateFormation>(), b),
      de: |b, _| Box::new(Holder(AggregateStateFormation::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<AggregateStateFormation>(), b)), fde: Some(|b, _| Box::new(Holder(<AggregateStateFormation as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<AggregateStateFormation>())), const_len: None, via: None },
    RecordKind { name: "ComponentDamageStatus", new: |g| Box::new(Holder(<ComponentDamageStatus as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ComponentDamageStatus>(), b),
      de: |b, _| Box::new(Holder(ComponentDamageStatus::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ComponentDamageStatus>(), b)), fde: Some(|b, _| Box::new(Holder(<ComponentDamageStatus as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ComponentDamageStatus>())), const_len: None, via: None },
    RecordKind { name: "ComponentIdentification", new: |g| Box::new(Holder(<ComponentIdentification as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ComponentIdentification>(), b),
      de: |b, _| Box::new(Holder(ComponentIdentification::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ComponentIdentification>(), b)), fde: Some(|b, _| Box::new(Holder(<ComponentIdentification as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ComponentIdentification>())), const_len: None, via: None },
    RecordKind { name: "ComponentVisualSmokeColor", new: |g| Box::new(Holder(<ComponentVisualSmokeColor as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ComponentVisualSmokeColor>(), b),
      de: |b, _| Box::new(Holder(ComponentVisualSmokeColor::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ComponentVisualSmokeColor>(), b)), fde: Some(|b, _| Box::new(Holder(<ComponentVisualSmokeColor as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ComponentVisualSmokeColor>())), const_len: None, via: None },
    RecordKind { name: "DEFirePulseShape", new: |g| Box::new(Holder(<DEFirePulseShape as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DEFirePulseShape>(), b),
      de: |b, _| Box::new(Holder(DEFirePulseShape::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DEFirePulseShape>(), b)), fde: Some(|b, _| Box::new(Holder(<DEFirePulseShape as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DEFirePulseShape>())), const_len: None, via: None },
    RecordKind { name: "DISAttributeActionCode", new: |g| Box::new(Holder(<DISAttributeActionCode as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DISAttributeActionCode>(), b),
      de: |b, _| Box::new(Holder(DISAttributeActionCode::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DISAttributeActionCode>(), b)), fde: Some(|b, _| Box::new(Holder(<DISAttributeActionCode as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DISAttributeActionCode>())), const_len: None, via: None },
    RecordKind { name: "DeadReckoningAlgorithm", new: |g| Box::new(Holder(<DeadReckoningAlgorithm as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DeadReckoningAlgorithm>(), b),
      de: |b, _| Box::new(Holder(DeadReckoningAlgorithm::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DeadReckoningAlgorithm>(), b)), fde: Some(|b, _| Box::new(Holder(<DeadReckoningAlgorithm as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DeadReckoningAlgorithm>())), const_len: None, via: None },
    RecordKind { name: "DesignatorCode", new: |g| Box::new(Holder(<DesignatorCode as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DesignatorCode>(), b),
      de: |b, _| Box::new(Holder(DesignatorCode::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DesignatorCode>(), b)), fde: Some(|b, _| Box::new(Holder(<DesignatorCode as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DesignatorCode>())), const_len: None, via: None },
    RecordKind { name: "DesignatorSystemName", new: |g| Box::new(Holder(<DesignatorSystemName as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DesignatorSystemName>(), b),
      de: |b, _| Box::new(Holder(DesignatorSystemName::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DesignatorSystemName>(), b)), fde: Some(|b, _| Box::new(Holder(<DesignatorSystemName as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DesignatorSystemName>())), const_len: None, via: None },
    RecordKind { name: "DetonationResult", new: |g| Box::new(Holder(<DetonationResult as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<DetonationResult>(), b),
      de: |b, _| Box::new(Holder(DetonationResult::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<DetonationResult>(), b)), fde: Some(|b, _| Box::new(Holder(<DetonationResult as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<DetonationResult>())), const_len: None, via: None },
    RecordKind { name: "EEAttributeStateIndicator", new: |g| Box::new(Holder(<EEAttributeStateIndicator as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<EEAttributeStateIndicator>(), b),
      de: |b, _| Box::new(Holder(EEAttributeStateIndicator::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EEAttributeStateIndicator>(), b)), fde: Some(|b, _| Box::new(Holder(<EEAttributeStateIndicator as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EEAttributeStateIndicator>())), const_len: None, via: None },
    RecordKind { name: "EntityCapabilities", new: |g| Box::new(Holder(<EntityCapabilities as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<EntityCapabilities>(), b),
      de: |b, _| Box::new(Holder(EntityCapabilities::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EntityCapabilities>(), b)), fde: Some(|b, _| Box::new(Holder(<EntityCapabilities as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EntityCapabilities>())), const_len: None, via: None },
    RecordKind { name: "EventType", new: |g| Box::new(Holder(<EventType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<EventType>(), b),
      de: |b, _| Box::new(Holder(EventType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<EventType>(), b)), fde: Some(|b, _| Box::new(Holder(<EventType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<EventType>())), const_len: None, via: None },
    RecordKind { name: "ForceId", new: |g| Box::new(Holder(<ForceId as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ForceId>(), b),
      de: |b, _| Box::new(Holder(ForceId::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ForceId>(), b)), fde: Some(|b, _| Box::new(Holder(<ForceId as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ForceId>())), const_len: None, via: None },
    RecordKind { name: "GridAxisDescriptorAxisType", new: |g| Box::new(Holder(<GridAxisDescriptorAxisType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<GridAxisDescriptorAxisType>(), b),
      de: |b, _| Box::new(Holder(GridAxisDescriptorAxisType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GridAxisDescriptorAxisType>(), b)), fde: Some(|b, _| Box::new(Holder(<GridAxisDescriptorAxisType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GridAxisDescriptorAxisType>())), const_len: None, via: None },
    RecordKind { name: "GriddedDataConstantGrid", new: |g| Box::new(Holder(<GriddedDataConstantGrid as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataConstantGrid>(), b),
      de: |b, _| Box::new(Holder(GriddedDataConstantGrid::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataConstantGrid>(), b)), fde: Some(|b, _| Box::new(Holder(<GriddedDataConstantGrid as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GriddedDataConstantGrid>())), const_len: None, via: None },
    RecordKind { name: "GriddedDataCoordinateSystem", new: |g| Box::new(Holder(<GriddedDataCoordinateSystem as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataCoordinateSystem>(), b),
      de: |b, _| Box::new(Holder(GriddedDataCoordinateSystem::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataCoordinateSystem>(), b)), fde: Some(|b, _| Box::new(Holder(<GriddedDataCoordinateSystem as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GriddedDataCoordinateSystem>())), const_len: None, via: None },
    RecordKind { name: "GriddedDataDataRepresentation", new: |g| Box::new(Holder(<GriddedDataDataRepresentation as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataDataRepresentation>(), b),
      de: |b, _| Box::new(Holder(GriddedDataDataRepresentation::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataDataRepresentation>(), b)), fde: Some(|b, _| Box::new(Holder(<GriddedDataDataRepresentation as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GriddedDataDataRepresentation>())), const_len: None, via: None },
    RecordKind { name: "GriddedDataSampleType", new: |g| Box::new(Holder(<GriddedDataSampleType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataSampleType>(), b),
      de: |b, _| Box::new(Holder(GriddedDataSampleType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<GriddedDataSampleType>(), b)), fde: Some(|b, _| Box::new(Holder(<GriddedDataSampleType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<GriddedDataSampleType>())), const_len: None, via: None },
    RecordKind { name: "IOActionIOActionPhase", new: |g| Box::new(Holder(<IOActionIOActionPhase as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOActionPhase>(), b),
      de: |b, _| Box::new(Holder(IOActionIOActionPhase::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOActionPhase>(), b)), fde: Some(|b, _| Box::new(Holder(<IOActionIOActionPhase as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IOActionIOActionPhase>())), const_len: None, via: None },
    RecordKind { name: "IOActionIOActionType", new: |g| Box::new(Holder(<IOActionIOActionType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOActionType>(), b),
      de: |b, _| Box::new(Holder(IOActionIOActionType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOActionType>(), b)), fde: Some(|b, _| Box::new(Holder(<IOActionIOActionType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IOActionIOActionType>())), const_len: None, via: None },
    RecordKind { name: "IOActionIOSimulationSource", new: |g| Box::new(Holder(<IOActionIOSimulationSource as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOSimulationSource>(), b),
      de: |b, _| Box::new(Holder(IOActionIOSimulationSource::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOSimulationSource>(), b)), fde: Some(|b, _| Box::new(Holder(<IOActionIOSimulationSource as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IOActionIOSimulationSource>())), const_len: None, via: None },
    RecordKind { name: "IOActionIOWarfareType", new: |g| Box::new(Holder(<IOActionIOWarfareType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOWarfareType>(), b),
      de: |b, _| Box::new(Holder(IOActionIOWarfareType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IOActionIOWarfareType>(), b)), fde: Some(|b, _| Box::new(Holder(<IOActionIOWarfareType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IOActionIOWarfareType>())), const_len: None, via: None },
    RecordKind { name: "IOReportIOReportType", new: |g| Box::new(Holder(<IOReportIOReportType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IOReportIOReportType>(), b),
      de: |b, _| Box::new(Holder(IOReportIOReportType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IOReportIOReportType>(), b)), fde: Some(|b, _| Box::new(Holder(<IOReportIOReportType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IOReportIOReportType>())), const_len: None, via: None },
    RecordKind { name: "IntercomControlCommand", new: |g| Box::new(Holder(<IntercomControlCommand as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlCommand>(), b),
      de: |b, _| Box::new(Holder(IntercomControlCommand::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlCommand>(), b)), fde: Some(|b, _| Box::new(Holder(<IntercomControlCommand as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IntercomControlCommand>())), const_len: None, via: None },
    RecordKind { name: "IntercomControlControlType", new: |g| Box::new(Holder(<IntercomControlControlType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlControlType>(), b),
      de: |b, _| Box::new(Holder(IntercomControlControlType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlControlType>(), b)), fde: Some(|b, _| Box::new(Holder(<IntercomControlControlType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IntercomControlControlType>())), const_len: None, via: None },
    RecordKind { name: "IntercomControlTransmitLineState", new: |g| Box::new(Holder(<IntercomControlTransmitLineState as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlTransmitLineState>(), b),
      de: |b, _| Box::new(Holder(IntercomControlTransmitLineState::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IntercomControlTransmitLineState>(), b)), fde: Some(|b, _| Box::new(Holder(<IntercomControlTransmitLineState as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IntercomControlTransmitLineState>())), const_len: None, via: None },
    RecordKind { name: "IsGroupOfGroupedEntityCategory", new: |g| Box::new(Holder(<IsGroupOfGroupedEntityCategory as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<IsGroupOfGroupedEntityCategory>(), b),
      de: |b, _| Box::new(Holder(IsGroupOfGroupedEntityCategory::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<IsGroupOfGroupedEntityCategory>(), b)), fde: Some(|b, _| Box::new(Holder(<IsGroupOfGroupedEntityCategory as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<IsGroupOfGroupedEntityCategory>())), const_len: None, via: None },
    RecordKind { name: "MinefieldSensorTypes", new: |g| Box::new(Holder(<MinefieldSensorTypes as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<MinefieldSensorTypes>(), b),
      de: |b, _| Box::new(Holder(MinefieldSensorTypes::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<MinefieldSensorTypes>(), b)), fde: Some(|b, _| Box::new(Holder(<MinefieldSensorTypes as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<MinefieldSensorTypes>())), const_len: None, via: None },
    RecordKind { name: "MinefieldStateProtocolMode", new: |g| Box::new(Holder(<MinefieldStateProtocolMode as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<MinefieldStateProtocolMode>(), b),
      de: |b, _| Box::new(Holder(MinefieldStateProtocolMode::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<MinefieldStateProtocolMode>(), b)), fde: Some(|b, _| Box::new(Holder(<MinefieldStateProtocolMode as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<MinefieldStateProtocolMode>())), const_len: None, via: None },
    RecordKind { name: "Reason", new: |g| Box::new(Holder(<Reason as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<Reason>(), b),
      de: |b, _| Box::new(Holder(Reason::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<Reason>(), b)), fde: Some(|b, _| Box::new(Holder(<Reason as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<Reason>())), const_len: None, via: None },
    RecordKind { name: "ReceiverReceiverState", new: |g| Box::new(Holder(<ReceiverReceiverState as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ReceiverReceiverState>(), b),
      de: |b, _| Box::new(Holder(ReceiverReceiverState::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ReceiverReceiverState>(), b)), fde: Some(|b, _| Box::new(Holder(<ReceiverReceiverState as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ReceiverReceiverState>())), const_len: None, via: None },
    RecordKind { name: "RecordQueryREventType", new: |g| Box::new(Holder(<RecordQueryREventType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<RecordQueryREventType>(), b),
      de: |b, _| Box::new(Holder(RecordQueryREventType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RecordQueryREventType>(), b)), fde: Some(|b, _| Box::new(Holder(<RecordQueryREventType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RecordQueryREventType>())), const_len: None, via: None },
    RecordKind { name: "RepairCompleteRepair", new: |g| Box::new(Holder(<RepairCompleteRepair as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<RepairCompleteRepair>(), b),
      de: |b, _| Box::new(Holder(RepairCompleteRepair::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RepairCompleteRepair>(), b)), fde: Some(|b, _| Box::new(Holder(<RepairCompleteRepair as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RepairCompleteRepair>())), const_len: None, via: None },
    RecordKind { name: "RepairGroups", new: |g| Box::new(Holder(<RepairGroups as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<RepairGroups>(), b),
      de: |b, _| Box::new(Holder(RepairGroups::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RepairGroups>(), b)), fde: Some(|b, _| Box::new(Holder(<RepairGroups as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RepairGroups>())), const_len: None, via: None },
    RecordKind { name: "RepairResponseRepairResult", new: |g| Box::new(Holder(<RepairResponseRepairResult as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<RepairResponseRepairResult>(), b),
      de: |b, _| Box::new(Holder(RepairResponseRepairResult::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RepairResponseRepairResult>(), b)), fde: Some(|b, _| Box::new(Holder(<RepairResponseRepairResult as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RepairResponseRepairResult>())), const_len: None, via: None },
    RecordKind { name: "RequiredReliabilityService", new: |g| Box::new(Holder(<RequiredReliabilityService as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<RequiredReliabilityService>(), b),
      de: |b, _| Box::new(Holder(RequiredReliabilityService::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<RequiredReliabilityService>(), b)), fde: Some(|b, _| Box::new(Holder(<RequiredReliabilityService as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<RequiredReliabilityService>())), const_len: None, via: None },
    RecordKind { name: "ServiceRequestServiceTypeRequested", new: |g| Box::new(Holder(<ServiceRequestServiceTypeRequested as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<ServiceRequestServiceTypeRequested>(), b),
      de: |b, _| Box::new(Holder(ServiceRequestServiceTypeRequested::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<ServiceRequestServiceTypeRequested>(), b)), fde: Some(|b, _| Box::new(Holder(<ServiceRequestServiceTypeRequested as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<ServiceRequestServiceTypeRequested>())), const_len: None, via: None },
    RecordKind { name: "SignalTDLType", new: |g| Box::new(Holder(<SignalTDLType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<SignalTDLType>(), b),
      de: |b, _| Box::new(Holder(SignalTDLType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<SignalTDLType>(), b)), fde: Some(|b, _| Box::new(Holder(<SignalTDLType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<SignalTDLType>())), const_len: None, via: None },
    RecordKind { name: "TransferControlTransferType", new: |g| Box::new(Holder(<TransferControlTransferType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransferControlTransferType>(), b),
      de: |b, _| Box::new(Holder(TransferControlTransferType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransferControlTransferType>(), b)), fde: Some(|b, _| Box::new(Holder(<TransferControlTransferType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransferControlTransferType>())), const_len: None, via: None },
    RecordKind { name: "TransmitterAntennaPatternReferenceSystem", new: |g| Box::new(Holder(<TransmitterAntennaPatternReferenceSystem as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterAntennaPatternReferenceSystem>(), b),
      de: |b, _| Box::new(Holder(TransmitterAntennaPatternReferenceSystem::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterAntennaPatternReferenceSystem>(), b)), fde: Some(|b, _| Box::new(Holder(<TransmitterAntennaPatternReferenceSystem as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransmitterAntennaPatternReferenceSystem>())), const_len: None, via: None },
    RecordKind { name: "TransmitterAntennaPatternType", new: |g| Box::new(Holder(<TransmitterAntennaPatternType as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterAntennaPatternType>(), b),
      de: |b, _| Box::new(Holder(TransmitterAntennaPatternType::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterAntennaPatternType>(), b)), fde: Some(|b, _| Box::new(Holder(<TransmitterAntennaPatternType as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransmitterAntennaPatternType>())), const_len: None, via: None },
    RecordKind { name: "TransmitterCryptoSystem", new: |g| Box::new(Holder(<TransmitterCryptoSystem as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterCryptoSystem>(), b),
      de: |b, _| Box::new(Holder(TransmitterCryptoSystem::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterCryptoSystem>(), b)), fde: Some(|b, _| Box::new(Holder(<TransmitterCryptoSystem as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransmitterCryptoSystem>())), const_len: None, via: None },
    RecordKind { name: "TransmitterInputSource", new: |g| Box::new(Holder(<TransmitterInputSource as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterInputSource>(), b),
      de: |b, _| Box::new(Holder(TransmitterInputSource::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterInputSource>(), b)), fde: Some(|b, _| Box::new(Holder(<TransmitterInputSource as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransmitterInputSource>())), const_len: None, via: None },
    RecordKind { name: "TransmitterTransmitState", new: |g| Box::new(Holder(<TransmitterTransmitState as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterTransmitState>(), b),
      de: |b, _| Box::new(Holder(TransmitterTransmitState::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<TransmitterTransmitState>(), b)), fde: Some(|b, _| Box::new(Holder(<TransmitterTransmitState as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<TransmitterTransmitState>())), const_len: None, via: None },
    RecordKind { name: "UAAcousticEmitterSystemFunction", new: |g| Box::new(Holder(<UAAcousticEmitterSystemFunction as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<UAAcousticEmitterSystemFunction>(), b),
      de: |b, _| Box::new(Holder(UAAcousticEmitterSystemFunction::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<UAAcousticEmitterSystemFunction>(), b)), fde: Some(|b, _| Box::new(Holder(<UAAcousticEmitterSystemFunction as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<UAAcousticEmitterSystemFunction>())), const_len: None, via: None },
    RecordKind { name: "UAAcousticSystemName", new: |g| Box::new(Holder(<UAAcousticSystemName as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<UAAcousticSystemName>(), b),
      de: |b, _| Box::new(Holder(UAAcousticSystemName::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<UAAcousticSystemName>(), b)), fde: Some(|b, _| Box::new(Holder(<UAAcousticSystemName as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<UAAcousticSystemName>())), const_len: None, via: None },
    RecordKind { name: "UAPassiveParameterIndex", new: |g| Box::new(Holder(<UAPassiveParameterIndex as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<UAPassiveParameterIndex>(), b),
      de: |b, _| Box::new(Holder(UAPassiveParameterIndex::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<UAPassiveParameterIndex>(), b)), fde: Some(|b, _| Box::new(Holder(<UAPassiveParameterIndex as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<UAPassiveParameterIndex>())), const_len: None, via: None },
    RecordKind { name: "UAStateChangeUpdateIndicator", new: |g| Box::new(Holder(<UAStateChangeUpdateIndicator as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<UAStateChangeUpdateIndicator>(), b),
      de: |b, _| Box::new(Holder(UAStateChangeUpdateIndicator::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<UAStateChangeUpdateIndicator>(), b)), fde: Some(|b, _| Box::new(Holder(<UAStateChangeUpdateIndicator as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<UAStateChangeUpdateIndicator>())), const_len: None, via: None },
    RecordKind { name: "VariableRecordTypes", new: |g| Box::new(Holder(<VariableRecordTypes as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<VariableRecordTypes>(), b),
      de: |b, _| Box::new(Holder(VariableRecordTypes::deserialize(b))),
      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<VariableRecordTypes>(), b)), fde: Some(|b, _| Box::new(Holder(<VariableRecordTypes as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<VariableRecordTypes>())), const_len: None, via: None },
// the enumerations
    RecordKind { name: "APAParameterIndexAPAStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[0]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[0], format!("{:?}", APAParameterIndexAPAStatus::deserialize(b))) },
    RecordKind { name: "AcknowledgeFlag", new: |g| EnumRec::draw(g, &ALL_ENUMS[1]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[1], format!("{:?}", AcknowledgeFlag::deserialize(b))) },
    RecordKind { name: "AcknowledgeResponseFlag", new: |g| EnumRec::draw(g, &ALL_ENUMS[2]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[2], format!("{:?}", AcknowledgeResponseFlag::deserialize(b))) },
    RecordKind { name: "ActionRequestActionID", new: |g| EnumRec::draw(g, &ALL_ENUMS[3]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[3], format!("{:?}", ActionRequestActionID::deserialize(b))) },
    RecordKind { name: "ActionResponseRequestStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[4]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[4], format!("{:?}", ActionResponseRequestStatus::deserialize(b))) },
    RecordKind { name: "ActiveInterrogationIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[5]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[5], format!("{:?}", ActiveInterrogationIndicator::deserialize(b))) },
    RecordKind { name: "AddSpecificDimensionEnumerationsforSubsurfaceAreaSize", new: |g| EnumRec::draw(g, &ALL_ENUMS[6]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[6], format!("{:?}", AddSpecificDimensionEnumerationsforSubsurfaceAreaSize::deserialize(b))) },
    RecordKind { name: "AddVariantsforAirCategory201Insect", new: |g| EnumRec::draw(g, &ALL_ENUMS[7]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[7], format!("{:?}", AddVariantsforAirCategory201Insect::deserialize(b))) },
    RecordKind { name: "AddVariantsforLandCategory200Mammal", new: |g| EnumRec::draw(g, &ALL_ENUMS[8]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[8], format!("{:?}", AddVariantsforLandCategory200Mammal::deserialize(b))) },
    RecordKind { name: "AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect", new: |g| EnumRec::draw(g, &ALL_ENUMS[9]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[9], format!("{:?}", AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect::deserialize(b))) },
    RecordKind { name: "AggregateStateAggregateKind", new: |g| EnumRec::draw(g, &ALL_ENUMS[10]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[10], format!("{:?}", AggregateStateAggregateKind::deserialize(b))) },
    RecordKind { name: "AggregateStateAggregateState", new: |g| EnumRec::draw(g, &ALL_ENUMS[11]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[11], format!("{:?}", AggregateStateAggregateState::deserialize(b))) },
    RecordKind { name: "AggregateStateFormation", new: |g| EnumRec::draw(g, &ALL_ENUMS[12]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[12], format!("{:?}", AggregateStateFormation::deserialize(b))) },
    RecordKind { name: "AggregateStateSpecific", new: |g| EnumRec::draw(g, &ALL_ENUMS[13]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[13], format!("{:?}", AggregateStateSpecific::deserialize(b))) },
    RecordKind { name: "AggregateStateSubcategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[14]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[14], format!("{:?}", AggregateStateSubcategory::deserialize(b))) },
    RecordKind { name: "AirDomainCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[15]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[15], format!("{:?}", AirDomainCategories::deserialize(b))) },
    RecordKind { name: "AircraftAddressSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[16]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[16], format!("{:?}", AircraftAddressSource::deserialize(b))) },
    RecordKind { name: "AircraftIDSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[17]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[17], format!("{:?}", AircraftIDSource::deserialize(b))) },
    RecordKind { name: "AircraftIdentificationType", new: |g| EnumRec::draw(g, &ALL_ENUMS[18]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[18], format!("{:?}", AircraftIdentificationType::deserialize(b))) },
    RecordKind { name: "AircraftPresentDomain", new: |g| EnumRec::draw(g, &ALL_ENUMS[19]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[19], format!("{:?}", AircraftPresentDomain::deserialize(b))) },
    RecordKind { name: "AircraftTypeWake", new: |g| EnumRec::draw(g, &ALL_ENUMS[20]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[20], format!("{:?}", AircraftTypeWake::deserialize(b))) },
    RecordKind { name: "AnimalLifeformGroupSizeRangeEnumerationforallDomains", new: |g| EnumRec::draw(g, &ALL_ENUMS[21]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[21], format!("{:?}", AnimalLifeformGroupSizeRangeEnumerationforallDomains::deserialize(b))) },
    RecordKind { name: "AntennaSelection", new: |g| EnumRec::draw(g, &ALL_ENUMS[22]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[22], format!("{:?}", AntennaSelection::deserialize(b))) },
    RecordKind { name: "AntennaStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[23]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[23], format!("{:?}", AntennaStatus::deserialize(b))) },
    RecordKind { name: "AppearanceAntiCollisionDayNight", new: |g| EnumRec::draw(g, &ALL_ENUMS[24]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[24], format!("{:?}", AppearanceAntiCollisionDayNight::deserialize(b))) },
    RecordKind { name: "AppearanceCamouflageType", new: |g| EnumRec::draw(g, &ALL_ENUMS[25]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[25], format!("{:?}", AppearanceCamouflageType::deserialize(b))) },
    RecordKind { name: "AppearanceCanopy", new: |g| EnumRec::draw(g, &ALL_ENUMS[26]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[26], format!("{:?}", AppearanceCanopy::deserialize(b))) },
    RecordKind { name: "AppearanceConcealedMovement", new: |g| EnumRec::draw(g, &ALL_ENUMS[27]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[27], format!("{:?}", AppearanceConcealedMovement::deserialize(b))) },
    RecordKind { name: "AppearanceConcealedPosition", new: |g| EnumRec::draw(g, &ALL_ENUMS[28]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[28], format!("{:?}", AppearanceConcealedPosition::deserialize(b))) },
    RecordKind { name: "AppearanceDamage", new: |g| EnumRec::draw(g, &ALL_ENUMS[29]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[29], format!("{:?}", AppearanceDamage::deserialize(b))) },
    RecordKind { name: "AppearanceEntityorObjectState", new: |g| EnumRec::draw(g, &ALL_ENUMS[30]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[30], format!("{:?}", AppearanceEntityorObjectState::deserialize(b))) },
    RecordKind { name: "AppearanceEnvironmentalDensity", new: |g| EnumRec::draw(g, &ALL_ENUMS[31]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[31], format!("{:?}", AppearanceEnvironmentalDensity::deserialize(b))) },
    RecordKind { name: "AppearanceHatch", new: |g| EnumRec::draw(g, &ALL_ENUMS[32]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[32], format!("{:?}", AppearanceHatch::deserialize(b))) },
    RecordKind { name: "AppearanceLauncherOperational", new: |g| EnumRec::draw(g, &ALL_ENUMS[33]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[33], format!("{:?}", AppearanceLauncherOperational::deserialize(b))) },
    RecordKind { name: "AppearanceLifeFormComplianceStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[34]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[34], format!("{:?}", AppearanceLifeFormComplianceStatus::deserialize(b))) },
    RecordKind { name: "AppearanceLifeFormPosture", new: |g| EnumRec::draw(g, &ALL_ENUMS[35]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[35], format!("{:?}", AppearanceLifeFormPosture::deserialize(b))) },
    RecordKind { name: "AppearanceLifeFormWeaponImplement", new: |g| EnumRec::draw(g, &ALL_ENUMS[36]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[36], format!("{:?}", AppearanceLifeFormWeaponImplement::deserialize(b))) },
    RecordKind { name: "AppearanceLifeformHealth", new: |g| EnumRec::draw(g, &ALL_ENUMS[37]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[37], format!("{:?}", AppearanceLifeformHealth::deserialize(b))) },
    RecordKind { name: "AppearanceLinearObjectLaneMarkerVisible", new: |g| EnumRec::draw(g, &ALL_ENUMS[38]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[38], format!("{:?}", AppearanceLinearObjectLaneMarkerVisible::deserialize(b))) },
    RecordKind { name: "AppearanceLinearObjectTankDitchBreach", new: |g| EnumRec::draw(g, &ALL_ENUMS[39]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[39], format!("{:?}", AppearanceLinearObjectTankDitchBreach::deserialize(b))) },
    RecordKind { name: "AppearanceNVGMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[40]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[40], format!("{:?}", AppearanceNVGMode::deserialize(b))) },
    RecordKind { name: "AppearanceNavigationPositionBrightness", new: |g| EnumRec::draw(g, &ALL_ENUMS[41]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[41], format!("{:?}", AppearanceNavigationPositionBrightness::deserialize(b))) },
    RecordKind { name: "AppearanceObjectGeneralDamage", new: |g| EnumRec::draw(g, &ALL_ENUMS[42]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[42], format!("{:?}", AppearanceObjectGeneralDamage::deserialize(b))) },
    RecordKind { name: "AppearanceObjectGeneralIEDPresent", new: |g| EnumRec::draw(g, &ALL_ENUMS[43]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[43], format!("{:?}", AppearanceObjectGeneralIEDPresent::deserialize(b))) },
    RecordKind { name: "AppearanceObjectGeneralPredistributed", new: |g| EnumRec::draw(g, &ALL_ENUMS[44]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[44], format!("{:?}", AppearanceObjectGeneralPredistributed::deserialize(b))) },
    RecordKind { name: "AppearanceObjectSpecificBreachState", new: |g| EnumRec::draw(g, &ALL_ENUMS[45]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[45], format!("{:?}", AppearanceObjectSpecificBreachState::deserialize(b))) },
    RecordKind { name: "AppearanceObjectSpecificChemicalType", new: |g| EnumRec::draw(g, &ALL_ENUMS[46]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[46], format!("{:?}", AppearanceObjectSpecificChemicalType::deserialize(b))) },
    RecordKind { name: "AppearancePaintScheme", new: |g| EnumRec::draw(g, &ALL_ENUMS[47]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[47], format!("{:?}", AppearancePaintScheme::deserialize(b))) },
    RecordKind { name: "AppearanceSubsurfaceHatch", new: |g| EnumRec::draw(g, &ALL_ENUMS[48]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[48], format!("{:?}", AppearanceSubsurfaceHatch::deserialize(b))) },
    RecordKind { name: "AppearanceSupplyDeployed", new: |g| EnumRec::draw(g, &ALL_ENUMS[49]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[49], format!("{:?}", AppearanceSupplyDeployed::deserialize(b))) },
    RecordKind { name: "AppearanceTrailingEffects", new: |g| EnumRec::draw(g, &ALL_ENUMS[50]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[50], format!("{:?}", AppearanceTrailingEffects::deserialize(b))) },
    RecordKind { name: "ArticulatedPartsTypeClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[51]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[51], format!("{:?}", ArticulatedPartsTypeClass::deserialize(b))) },
    RecordKind { name: "ArticulatedPartsTypeMetric", new: |g| EnumRec::draw(g, &ALL_ENUMS[52]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[52], format!("{:?}", ArticulatedPartsTypeMetric::deserialize(b))) },
    RecordKind { name: "AttachedPartDetachedIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[53]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[53], format!("{:?}", AttachedPartDetachedIndicator::deserialize(b))) },
    RecordKind { name: "AttachedParts", new: |g| EnumRec::draw(g, &ALL_ENUMS[54]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[54], format!("{:?}", AttachedParts::deserialize(b))) },
    RecordKind { name: "AustralianCategoryOverlay", new: |g| EnumRec::draw(g, &ALL_ENUMS[55]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[55], format!("{:?}", AustralianCategoryOverlay::deserialize(b))) },
    RecordKind { name: "BeamStatusBeamState", new: |g| EnumRec::draw(g, &ALL_ENUMS[56]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[56], format!("{:?}", BeamStatusBeamState::deserialize(b))) },
    RecordKind { name: "BuildingPaintScheme", new: |g| EnumRec::draw(g, &ALL_ENUMS[57]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[57], format!("{:?}", BuildingPaintScheme::deserialize(b))) },
    RecordKind { name: "CCTTSINCGARSClearChannel", new: |g| EnumRec::draw(g, &ALL_ENUMS[58]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[58], format!("{:?}", CCTTSINCGARSClearChannel::deserialize(b))) },
    RecordKind { name: "CCTTSINCGARSStartofMessage", new: |g| EnumRec::draw(g, &ALL_ENUMS[59]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[59], format!("{:?}", CCTTSINCGARSStartofMessage::deserialize(b))) },
    RecordKind { name: "CIGIExtensionPacketID", new: |g| EnumRec::draw(g, &ALL_ENUMS[60]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[60], format!("{:?}", CIGIExtensionPacketID::deserialize(b))) },
    RecordKind { name: "CapabilityReport", new: |g| EnumRec::draw(g, &ALL_ENUMS[61]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[61], format!("{:?}", CapabilityReport::deserialize(b))) },
    RecordKind { name: "Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms", new: |g| EnumRec::draw(g, &ALL_ENUMS[62]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[62], format!("{:?}", Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms::deserialize(b))) },
    RecordKind { name: "Class11SupplyCategorySupplies", new: |g| EnumRec::draw(g, &ALL_ENUMS[63]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[63], format!("{:?}", Class11SupplyCategorySupplies::deserialize(b))) },
    RecordKind { name: "Class12SupplyCategorySlingLoads", new: |g| EnumRec::draw(g, &ALL_ENUMS[64]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[64], format!("{:?}", Class12SupplyCategorySlingLoads::deserialize(b))) },
    RecordKind { name: "Class1SupplyCategorySubsistence", new: |g| EnumRec::draw(g, &ALL_ENUMS[65]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[65], format!("{:?}", Class1SupplyCategorySubsistence::deserialize(b))) },
    RecordKind { name: "Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies", new: |g| EnumRec::draw(g, &ALL_ENUMS[66]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[66], format!("{:?}", Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies::deserialize(b))) },
    RecordKind { name: "Class3SupplyCategoryPetroleumOilsLubricants", new: |g| EnumRec::draw(g, &ALL_ENUMS[67]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[67], format!("{:?}", Class3SupplyCategoryPetroleumOilsLubricants::deserialize(b))) },
    RecordKind { name: "Class4SupplyCategoryConstructionMaterials", new: |g| EnumRec::draw(g, &ALL_ENUMS[68]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[68], format!("{:?}", Class4SupplyCategoryConstructionMaterials::deserialize(b))) },
    RecordKind { name: "Class6SupplyCategoryPersonnelDemandItems", new: |g| EnumRec::draw(g, &ALL_ENUMS[69]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[69], format!("{:?}", Class6SupplyCategoryPersonnelDemandItems::deserialize(b))) },
    RecordKind { name: "Class7SupplyCategoryMajorItems", new: |g| EnumRec::draw(g, &ALL_ENUMS[70]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[70], format!("{:?}", Class7SupplyCategoryMajorItems::deserialize(b))) },
    RecordKind { name: "Class8SupplyCategoryMedicalMaterial", new: |g| EnumRec::draw(g, &ALL_ENUMS[71]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[71], format!("{:?}", Class8SupplyCategoryMedicalMaterial::deserialize(b))) },
    RecordKind { name: "Class9SupplyCategoryRepairPartsandComponents", new: |g| EnumRec::draw(g, &ALL_ENUMS[72]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[72], format!("{:?}", Class9SupplyCategoryRepairPartsandComponents::deserialize(b))) },
    RecordKind { name: "ClothingIRSignature", new: |g| EnumRec::draw(g, &ALL_ENUMS[73]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[73], format!("{:?}", ClothingIRSignature::deserialize(b))) },
    RecordKind { name: "CollisionType", new: |g| EnumRec::draw(g, &ALL_ENUMS[74]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[74], format!("{:?}", CollisionType::deserialize(b))) },
    RecordKind { name: "Color", new: |g| EnumRec::draw(g, &ALL_ENUMS[75]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[75], format!("{:?}", Color::deserialize(b))) },
    RecordKind { name: "ComponentDamageStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[76]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[76], format!("{:?}", ComponentDamageStatus::deserialize(b))) },
    RecordKind { name: "ComponentIdentification", new: |g| EnumRec::draw(g, &ALL_ENUMS[77]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[77], format!("{:?}", ComponentIdentification::deserialize(b))) },
    RecordKind { name: "ComponentVisualDamageStatusSmoke", new: |g| EnumRec::draw(g, &ALL_ENUMS[78]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[78], format!("{:?}", ComponentVisualDamageStatusSmoke::deserialize(b))) },
    RecordKind { name: "ComponentVisualDamageStatusSurfaceDamage", new: |g| EnumRec::draw(g, &ALL_ENUMS[79]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[79], format!("{:?}", ComponentVisualDamageStatusSurfaceDamage::deserialize(b))) },
    RecordKind { name: "ComponentVisualSmokeColor", new: |g| EnumRec::draw(g, &ALL_ENUMS[80]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[80], format!("{:?}", ComponentVisualSmokeColor::deserialize(b))) },
    RecordKind { name: "Country", new: |g| EnumRec::draw(g, &ALL_ENUMS[81]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[81], format!("{:?}", Country::deserialize(b))) },
    RecordKind { name: "CoupledExtensionIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[82]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[82], format!("{:?}", CoupledExtensionIndicator::deserialize(b))) },
    RecordKind { name: "CoverShroudStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[83]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[83], format!("{:?}", CoverShroudStatus::deserialize(b))) },
    RecordKind { name: "CryptoKeyIDCryptoMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[84]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[84], format!("{:?}", CryptoKeyIDCryptoMode::deserialize(b))) },
    RecordKind { name: "DEFireFlagsStateUpdateFlag", new: |g| EnumRec::draw(g, &ALL_ENUMS[85]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[85], format!("{:?}", DEFireFlagsStateUpdateFlag::deserialize(b))) },
    RecordKind { name: "DEFirePulseShape", new: |g| EnumRec::draw(g, &ALL_ENUMS[86]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[86], format!("{:?}", DEFirePulseShape::deserialize(b))) },
    RecordKind { name: "DEPrecisionAimpointBeamSpotType", new: |g| EnumRec::draw(g, &ALL_ENUMS[87]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[87], format!("{:?}", DEPrecisionAimpointBeamSpotType::deserialize(b))) },
    RecordKind { name: "DISAttributeActionCode", new: |g| EnumRec::draw(g, &ALL_ENUMS[88]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[88], format!("{:?}", DISAttributeActionCode::deserialize(b))) },
    RecordKind { name: "DISLiveEntitySubprotocolNumber", new: |g| EnumRec::draw(g, &ALL_ENUMS[89]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[89], format!("{:?}", DISLiveEntitySubprotocolNumber::deserialize(b))) },
    RecordKind { name: "DRParametersType", new: |g| EnumRec::draw(g, &ALL_ENUMS[90]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[90], format!("{:?}", DRParametersType::deserialize(b))) },
    RecordKind { name: "DamageArea", new: |g| EnumRec::draw(g, &ALL_ENUMS[91]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[91], format!("{:?}", DamageArea::deserialize(b))) },
    RecordKind { name: "DataCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[92]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[92], format!("{:?}", DataCategory::deserialize(b))) },
    RecordKind { name: "DeadReckoningAlgorithm", new: |g| EnumRec::draw(g, &ALL_ENUMS[93]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[93], format!("{:?}", DeadReckoningAlgorithm::deserialize(b))) },
    RecordKind { name: "DeltaMode5SAltitudePositiveNegativeIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[94]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[94], format!("{:?}", DeltaMode5SAltitudePositiveNegativeIndicator::deserialize(b))) },
    RecordKind { name: "DesignatorCode", new: |g| EnumRec::draw(g, &ALL_ENUMS[95]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[95], format!("{:?}", DesignatorCode::deserialize(b))) },
    RecordKind { name: "DesignatorSystemName", new: |g| EnumRec::draw(g, &ALL_ENUMS[96]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[96], format!("{:?}", DesignatorSystemName::deserialize(b))) },
    RecordKind { name: "DetonationResult", new: |g| EnumRec::draw(g, &ALL_ENUMS[97]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[97], format!("{:?}", DetonationResult::deserialize(b))) },
    RecordKind { name: "DetonationTypeIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[98]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[98], format!("{:?}", DetonationTypeIndicator::deserialize(b))) },
    RecordKind { name: "EEAttributeStateIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[99]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[99], format!("{:?}", EEAttributeStateIndicator::deserialize(b))) },
    RecordKind { name: "ElectromagneticEmissionBeamFunction", new: |g| EnumRec::draw(g, &ALL_ENUMS[100]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[100], format!("{:?}", ElectromagneticEmissionBeamFunction::deserialize(b))) },
    RecordKind { name: "ElectromagneticEmissionStateUpdateIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[101]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[101], format!("{:?}", ElectromagneticEmissionStateUpdateIndicator::deserialize(b))) },
    RecordKind { name: "EmitterName", new: |g| EnumRec::draw(g, &ALL_ENUMS[102]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[102], format!("{:?}", EmitterName::deserialize(b))) },
    RecordKind { name: "EmitterSystemFunction", new: |g| EnumRec::draw(g, &ALL_ENUMS[103]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[103], format!("{:?}", EmitterSystemFunction::deserialize(b))) },
    RecordKind { name: "EntityAssociationAssociationStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[104]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[104], format!("{:?}", EntityAssociationAssociationStatus::deserialize(b))) },
    RecordKind { name: "EntityAssociationAssociationType", new: |g| EnumRec::draw(g, &ALL_ENUMS[105]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[105], format!("{:?}", EntityAssociationAssociationType::deserialize(b))) },
    RecordKind { name: "EntityAssociationGroupMemberType", new: |g| EnumRec::draw(g, &ALL_ENUMS[106]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[106], format!("{:?}", EntityAssociationGroupMemberType::deserialize(b))) },
    RecordKind { name: "EntityAssociationPhysicalAssociationType", new: |g| EnumRec::draw(g, &ALL_ENUMS[107]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[107], format!("{:?}", EntityAssociationPhysicalAssociationType::deserialize(b))) },
    RecordKind { name: "EntityAssociationPhysicalConnectionType", new: |g| EnumRec::draw(g, &ALL_ENUMS[108]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[108], format!("{:?}", EntityAssociationPhysicalConnectionType::deserialize(b))) },
    RecordKind { name: "EntityCapabilities", new: |g| EnumRec::draw(g, &ALL_ENUMS[109]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[109], format!("{:?}", EntityCapabilities::deserialize(b))) },
    RecordKind { name: "EntityKind", new: |g| EnumRec::draw(g, &ALL_ENUMS[110]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[110], format!("{:?}", EntityKind::deserialize(b))) },
    RecordKind { name: "EntityMarkingCharacterSet", new: |g| EnumRec::draw(g, &ALL_ENUMS[111]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[111], format!("{:?}", EntityMarkingCharacterSet::deserialize(b))) },
    RecordKind { name: "EntityVPRecordChangeIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[112]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[112], format!("{:?}", EntityVPRecordChangeIndicator::deserialize(b))) },
    RecordKind { name: "EnvironmentRecordTypeGroups", new: |g| EnumRec::draw(g, &ALL_ENUMS[113]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[113], format!("{:?}", EnvironmentRecordTypeGroups::deserialize(b))) },
    RecordKind { name: "EnvironmentalProcessModelType", new: |g| EnumRec::draw(g, &ALL_ENUMS[114]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[114], format!("{:?}", EnvironmentalProcessModelType::deserialize(b))) },
    RecordKind { name: "EnvironmentalProcessRecordType", new: |g| EnumRec::draw(g, &ALL_ENUMS[115]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[115], format!("{:?}", EnvironmentalProcessRecordType::deserialize(b))) },
    RecordKind { name: "EnvironmentalSubcategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[116]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[116], format!("{:?}", EnvironmentalSubcategory::deserialize(b))) },
    RecordKind { name: "EventType", new: |g| EnumRec::draw(g, &ALL_ENUMS[117]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[117], format!("{:?}", EventType::deserialize(b))) },
    RecordKind { name: "ExpendableAirCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[118]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[118], format!("{:?}", ExpendableAirCategory::deserialize(b))) },
    RecordKind { name: "ExpendableSubsurfaceCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[119]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[119], format!("{:?}", ExpendableSubsurfaceCategory::deserialize(b))) },
    RecordKind { name: "ExpendableSurfaceCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[120]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[120], format!("{:?}", ExpendableSurfaceCategory::deserialize(b))) },
    RecordKind { name: "ExplosiveMaterialCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[121]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[121], format!("{:?}", ExplosiveMaterialCategories::deserialize(b))) },
    RecordKind { name: "ExplosiveMaterialGroups", new: |g| EnumRec::draw(g, &ALL_ENUMS[122]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[122], format!("{:?}", ExplosiveMaterialGroups::deserialize(b))) },
    RecordKind { name: "FireTypeIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[123]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[123], format!("{:?}", FireTypeIndicator::deserialize(b))) },
    RecordKind { name: "FlareSmokeColor", new: |g| EnumRec::draw(g, &ALL_ENUMS[124]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[124], format!("{:?}", FlareSmokeColor::deserialize(b))) },
    RecordKind { name: "FlareSmokeStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[125]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[125], format!("{:?}", FlareSmokeStatus::deserialize(b))) },
    RecordKind { name: "ForceId", new: |g| EnumRec::draw(g, &ALL_ENUMS[126]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[126], format!("{:?}", ForceId::deserialize(b))) },
    RecordKind { name: "FormatType", new: |g| EnumRec::draw(g, &ALL_ENUMS[127]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[127], format!("{:?}", FormatType::deserialize(b))) },
    RecordKind { name: "FrenchWeaponSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[128]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[128], format!("{:?}", FrenchWeaponSubcategories::deserialize(b))) },
    RecordKind { name: "FuelLocation", new: |g| EnumRec::draw(g, &ALL_ENUMS[129]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[129], format!("{:?}", FuelLocation::deserialize(b))) },
    RecordKind { name: "FuelMeasurementUnits", new: |g| EnumRec::draw(g, &ALL_ENUMS[130]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[130], format!("{:?}", FuelMeasurementUnits::deserialize(b))) },
    RecordKind { name: "GridAxisDescriptorAxisType", new: |g| EnumRec::draw(g, &ALL_ENUMS[131]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[131], format!("{:?}", GridAxisDescriptorAxisType::deserialize(b))) },
    RecordKind { name: "GriddedDataConstantGrid", new: |g| EnumRec::draw(g, &ALL_ENUMS[132]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[132], format!("{:?}", GriddedDataConstantGrid::deserialize(b))) },
    RecordKind { name: "GriddedDataCoordinateSystem", new: |g| EnumRec::draw(g, &ALL_ENUMS[133]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[133], format!("{:?}", GriddedDataCoordinateSystem::deserialize(b))) },
    RecordKind { name: "GriddedDataDataRepresentation", new: |g| EnumRec::draw(g, &ALL_ENUMS[134]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[134], format!("{:?}", GriddedDataDataRepresentation::deserialize(b))) },
    RecordKind { name: "GriddedDataSampleType", new: |g| EnumRec::draw(g, &ALL_ENUMS[135]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[135], format!("{:?}", GriddedDataSampleType::deserialize(b))) },
    RecordKind { name: "HighDensityTrackJam", new: |g| EnumRec::draw(g, &ALL_ENUMS[136]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[136], format!("{:?}", HighDensityTrackJam::deserialize(b))) },
    RecordKind { name: "HighFidelityHAVEQUICKTODTransmitIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[137]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[137], format!("{:?}", HighFidelityHAVEQUICKTODTransmitIndicator::deserialize(b))) },
    RecordKind { name: "IFFAlternateMode4ChallengeReply", new: |g| EnumRec::draw(g, &ALL_ENUMS[138]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[138], format!("{:?}", IFFAlternateMode4ChallengeReply::deserialize(b))) },
    RecordKind { name: "IFFApplicableModes", new: |g| EnumRec::draw(g, &ALL_ENUMS[139]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[139], format!("{:?}", IFFApplicableModes::deserialize(b))) },
    RecordKind { name: "IFFDataRecordAvailable", new: |g| EnumRec::draw(g, &ALL_ENUMS[140]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[140], format!("{:?}", IFFDataRecordAvailable::deserialize(b))) },
    RecordKind { name: "IFFLayerSpecificInformation", new: |g| EnumRec::draw(g, &ALL_ENUMS[141]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[141], format!("{:?}", IFFLayerSpecificInformation::deserialize(b))) },
    RecordKind { name: "IFFSimulationMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[142]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[142], format!("{:?}", IFFSimulationMode::deserialize(b))) },
    RecordKind { name: "IFFSystemMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[143]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[143], format!("{:?}", IFFSystemMode::deserialize(b))) },
    RecordKind { name: "IFFSystemName", new: |g| EnumRec::draw(g, &ALL_ENUMS[144]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[144], format!("{:?}", IFFSystemName::deserialize(b))) },
    RecordKind { name: "IFFSystemType", new: |g| EnumRec::draw(g, &ALL_ENUMS[145]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[145], format!("{:?}", IFFSystemType::deserialize(b))) },
    RecordKind { name: "IFFSystemType1OperationalParameter1", new: |g| EnumRec::draw(g, &ALL_ENUMS[146]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[146], format!("{:?}", IFFSystemType1OperationalParameter1::deserialize(b))) },
    RecordKind { name: "IFFSystemType1OperationalParameter2", new: |g| EnumRec::draw(g, &ALL_ENUMS[147]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[147], format!("{:?}", IFFSystemType1OperationalParameter2::deserialize(b))) },
    RecordKind { name: "IOActionIOActionPhase", new: |g| EnumRec::draw(g, &ALL_ENUMS[148]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[148], format!("{:?}", IOActionIOActionPhase::deserialize(b))) },
    RecordKind { name: "IOActionIOActionType", new: |g| EnumRec::draw(g, &ALL_ENUMS[149]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[149], format!("{:?}", IOActionIOActionType::deserialize(b))) },
    RecordKind { name: "IOActionIOSimulationSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[150]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[150], format!("{:?}", IOActionIOSimulationSource::deserialize(b))) },
    RecordKind { name: "IOActionIOWarfareType", new: |g| EnumRec::draw(g, &ALL_ENUMS[151]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[151], format!("{:?}", IOActionIOWarfareType::deserialize(b))) },
    RecordKind { name: "IOCommsNodeRecordCommsNodeType", new: |g| EnumRec::draw(g, &ALL_ENUMS[152]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[152], format!("{:?}", IOCommsNodeRecordCommsNodeType::deserialize(b))) },
    RecordKind { name: "IOEffectsRecordIOEffect", new: |g| EnumRec::draw(g, &ALL_ENUMS[153]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[153], format!("{:?}", IOEffectsRecordIOEffect::deserialize(b))) },
    RecordKind { name: "IOEffectsRecordIOLinkType", new: |g| EnumRec::draw(g, &ALL_ENUMS[154]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[154], format!("{:?}", IOEffectsRecordIOLinkType::deserialize(b))) },
    RecordKind { name: "IOEffectsRecordIOProcess", new: |g| EnumRec::draw(g, &ALL_ENUMS[155]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[155], format!("{:?}", IOEffectsRecordIOProcess::deserialize(b))) },
    RecordKind { name: "IOEffectsRecordIOStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[156]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[156], format!("{:?}", IOEffectsRecordIOStatus::deserialize(b))) },
    RecordKind { name: "IOReportIOReportType", new: |g| EnumRec::draw(g, &ALL_ENUMS[157]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[157], format!("{:?}", IOReportIOReportType::deserialize(b))) },
    RecordKind { name: "ISLSAntennaType", new: |g| EnumRec::draw(g, &ALL_ENUMS[158]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[158], format!("{:?}", ISLSAntennaType::deserialize(b))) },
    RecordKind { name: "IntercomAttachedIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[159]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[159], format!("{:?}", IntercomAttachedIndicator::deserialize(b))) },
    RecordKind { name: "IntercomControlCommand", new: |g| EnumRec::draw(g, &ALL_ENUMS[160]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[160], format!("{:?}", IntercomControlCommand::deserialize(b))) },
    RecordKind { name: "IntercomControlCommunicationsClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[161]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[161], format!("{:?}", IntercomControlCommunicationsClass::deserialize(b))) },
    RecordKind { name: "IntercomControlCommunicationsType", new: |g| EnumRec::draw(g, &ALL_ENUMS[162]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[162], format!("{:?}", IntercomControlCommunicationsType::deserialize(b))) },
    RecordKind { name: "IntercomControlControlType", new: |g| EnumRec::draw(g, &ALL_ENUMS[163]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[163], format!("{:?}", IntercomControlControlType::deserialize(b))) },
    RecordKind { name: "IntercomControlDestinationLineStateCommand", new: |g| EnumRec::draw(g, &ALL_ENUMS[164]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[164], format!("{:?}", IntercomControlDestinationLineStateCommand::deserialize(b))) },
    RecordKind { name: "IntercomControlRecordType", new: |g| EnumRec::draw(g, &ALL_ENUMS[165]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[165], format!("{:?}", IntercomControlRecordType::deserialize(b))) },
    RecordKind { name: "IntercomControlTransmitLineState", new: |g| EnumRec::draw(g, &ALL_ENUMS[166]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[166], format!("{:?}", IntercomControlTransmitLineState::deserialize(b))) },
    RecordKind { name: "IsGroupOfGroupedEntityCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[167]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[167], format!("{:?}", IsGroupOfGroupedEntityCategory::deserialize(b))) },
    RecordKind { name: "IsGroupOfRestStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[168]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[168], format!("{:?}", IsGroupOfRestStatus::deserialize(b))) },
    RecordKind { name: "IsPartOfNature", new: |g| EnumRec::draw(g, &ALL_ENUMS[169]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[169], format!("{:?}", IsPartOfNature::deserialize(b))) },
    RecordKind { name: "IsPartOfPosition", new: |g| EnumRec::draw(g, &ALL_ENUMS[170]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[170], format!("{:?}", IsPartOfPosition::deserialize(b))) },
    RecordKind { name: "IsPartOfStationName", new: |g| EnumRec::draw(g, &ALL_ENUMS[171]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[171], format!("{:?}", IsPartOfStationName::deserialize(b))) },
    RecordKind { name: "IslandSubcategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[172]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[172], format!("{:?}", IslandSubcategory::deserialize(b))) },
    RecordKind { name: "JTIDSMIDSModulationParametersSynchronizationState", new: |g| EnumRec::draw(g, &ALL_ENUMS[173]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[173], format!("{:?}", JTIDSMIDSModulationParametersSynchronizationState::deserialize(b))) },
    RecordKind { name: "JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[174]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[174], format!("{:?}", JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode::deserialize(b))) },
    RecordKind { name: "JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[175]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[175], format!("{:?}", JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode::deserialize(b))) },
    RecordKind { name: "LVCIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[176]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[176], format!("{:?}", LVCIndicator::deserialize(b))) },
    RecordKind { name: "LandDomainCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[177]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[177], format!("{:?}", LandDomainCategories::deserialize(b))) },
    RecordKind { name: "LeafCoverage", new: |g| EnumRec::draw(g, &ALL_ENUMS[178]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[178], format!("{:?}", LeafCoverage::deserialize(b))) },
    RecordKind { name: "Level2SquitterStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[179]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[179], format!("{:?}", Level2SquitterStatus::deserialize(b))) },
    RecordKind { name: "LifeFormAirCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[180]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[180], format!("{:?}", LifeFormAirCategories::deserialize(b))) },
    RecordKind { name: "LifeFormCategoriesAfghanistan", new: |g| EnumRec::draw(g, &ALL_ENUMS[181]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[181], format!("{:?}", LifeFormCategoriesAfghanistan::deserialize(b))) },
    RecordKind { name: "LifeFormCategoriesUS", new: |g| EnumRec::draw(g, &ALL_ENUMS[182]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[182], format!("{:?}", LifeFormCategoriesUS::deserialize(b))) },
    RecordKind { name: "LifeFormExtraPersonalData", new: |g| EnumRec::draw(g, &ALL_ENUMS[183]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[183], format!("{:?}", LifeFormExtraPersonalData::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificAntiMaterielRifles", new: |g| EnumRec::draw(g, &ALL_ENUMS[184]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[184], format!("{:?}", LifeFormHumanSpecificAntiMaterielRifles::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificAntiTankMissiles", new: |g| EnumRec::draw(g, &ALL_ENUMS[185]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[185], format!("{:?}", LifeFormHumanSpecificAntiTankMissiles::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificAntiTankRockets", new: |g| EnumRec::draw(g, &ALL_ENUMS[186]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[186], format!("{:?}", LifeFormHumanSpecificAntiTankRockets::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificAssaultRifles", new: |g| EnumRec::draw(g, &ALL_ENUMS[187]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[187], format!("{:?}", LifeFormHumanSpecificAssaultRifles::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificDroneGuns", new: |g| EnumRec::draw(g, &ALL_ENUMS[188]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[188], format!("{:?}", LifeFormHumanSpecificDroneGuns::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificEquipmentClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[189]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[189], format!("{:?}", LifeFormHumanSpecificEquipmentClass::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificFlameRockets", new: |g| EnumRec::draw(g, &ALL_ENUMS[190]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[190], format!("{:?}", LifeFormHumanSpecificFlameRockets::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificFlameThrowers", new: |g| EnumRec::draw(g, &ALL_ENUMS[191]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[191], format!("{:?}", LifeFormHumanSpecificFlameThrowers::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificGrenadeLaunchers", new: |g| EnumRec::draw(g, &ALL_ENUMS[192]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[192], format!("{:?}", LifeFormHumanSpecificGrenadeLaunchers::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificGrenadeLaunchingMachineGun", new: |g| EnumRec::draw(g, &ALL_ENUMS[193]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[193], format!("{:?}", LifeFormHumanSpecificGrenadeLaunchingMachineGun::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificHandGuns", new: |g| EnumRec::draw(g, &ALL_ENUMS[194]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[194], format!("{:?}", LifeFormHumanSpecificHandGuns::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificHighPowerRifles", new: |g| EnumRec::draw(g, &ALL_ENUMS[195]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[195], format!("{:?}", LifeFormHumanSpecificHighPowerRifles::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificLasersClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[196]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[196], format!("{:?}", LifeFormHumanSpecificLasersClass::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificLogisticsEQClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[197]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[197], format!("{:?}", LifeFormHumanSpecificLogisticsEQClass::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificMachineGuns", new: |g| EnumRec::draw(g, &ALL_ENUMS[198]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[198], format!("{:?}", LifeFormHumanSpecificMachineGuns::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificManPortableAirDefenseSystem", new: |g| EnumRec::draw(g, &ALL_ENUMS[199]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[199], format!("{:?}", LifeFormHumanSpecificManPortableAirDefenseSystem::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificMortars", new: |g| EnumRec::draw(g, &ALL_ENUMS[200]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[200], format!("{:?}", LifeFormHumanSpecificMortars::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificPersonalElectronicsClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[201]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[201], format!("{:?}", LifeFormHumanSpecificPersonalElectronicsClass::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificRecoillessRifles", new: |g| EnumRec::draw(g, &ALL_ENUMS[202]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[202], format!("{:?}", LifeFormHumanSpecificRecoillessRifles::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificShotGuns", new: |g| EnumRec::draw(g, &ALL_ENUMS[203]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[203], format!("{:?}", LifeFormHumanSpecificShotGuns::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificSniper", new: |g| EnumRec::draw(g, &ALL_ENUMS[204]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[204], format!("{:?}", LifeFormHumanSpecificSniper::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificSubMachineGun", new: |g| EnumRec::draw(g, &ALL_ENUMS[205]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[205], format!("{:?}", LifeFormHumanSpecificSubMachineGun::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSpecificWeaponNonspecific", new: |g| EnumRec::draw(g, &ALL_ENUMS[206]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[206], format!("{:?}", LifeFormHumanSpecificWeaponNonspecific::deserialize(b))) },
    RecordKind { name: "LifeFormHumanSubcategoryEquipmentClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[207]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[207], format!("{:?}", LifeFormHumanSubcategoryEquipmentClass::deserialize(b))) },
    RecordKind { name: "LifeFormLandCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[208]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[208], format!("{:?}", LifeFormLandCategories::deserialize(b))) },
    RecordKind { name: "LifeFormSubsurfaceCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[209]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[209], format!("{:?}", LifeFormSubsurfaceCategories::deserialize(b))) },
    RecordKind { name: "LifeFormsSubcategoryGermanWeapons", new: |g| EnumRec::draw(g, &ALL_ENUMS[210]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[210], format!("{:?}", LifeFormsSubcategoryGermanWeapons::deserialize(b))) },
    RecordKind { name: "LifeFormsSubcategoryIranianWeapons", new: |g| EnumRec::draw(g, &ALL_ENUMS[211]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[211], format!("{:?}", LifeFormsSubcategoryIranianWeapons::deserialize(b))) },
    RecordKind { name: "LifeSavingEquipment", new: |g| EnumRec::draw(g, &ALL_ENUMS[212]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[212], format!("{:?}", LifeSavingEquipment::deserialize(b))) },
    RecordKind { name: "Link11BDataSignalingRate", new: |g| EnumRec::draw(g, &ALL_ENUMS[213]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[213], format!("{:?}", Link11BDataSignalingRate::deserialize(b))) },
    RecordKind { name: "Link11BLinkState", new: |g| EnumRec::draw(g, &ALL_ENUMS[214]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[214], format!("{:?}", Link11BLinkState::deserialize(b))) },
    RecordKind { name: "Link11BMessageSubType", new: |g| EnumRec::draw(g, &ALL_ENUMS[215]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[215], format!("{:?}", Link11BMessageSubType::deserialize(b))) },
    RecordKind { name: "Link11BModeofOperation", new: |g| EnumRec::draw(g, &ALL_ENUMS[216]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[216], format!("{:?}", Link11BModeofOperation::deserialize(b))) },
    RecordKind { name: "Link11BModulationStandard", new: |g| EnumRec::draw(g, &ALL_ENUMS[217]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[217], format!("{:?}", Link11BModulationStandard::deserialize(b))) },
    RecordKind { name: "Link11DataSignallingRate", new: |g| EnumRec::draw(g, &ALL_ENUMS[218]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[218], format!("{:?}", Link11DataSignallingRate::deserialize(b))) },
    RecordKind { name: "Link11DataTerminalSetIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[219]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[219], format!("{:?}", Link11DataTerminalSetIndicator::deserialize(b))) },
    RecordKind { name: "Link11MessageSubType", new: |g| EnumRec::draw(g, &ALL_ENUMS[220]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[220], format!("{:?}", Link11MessageSubType::deserialize(b))) },
    RecordKind { name: "Link11MessageTypeIdentifier", new: |g| EnumRec::draw(g, &ALL_ENUMS[221]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[221], format!("{:?}", Link11MessageTypeIdentifier::deserialize(b))) },
    RecordKind { name: "Link11ModeofOperation", new: |g| EnumRec::draw(g, &ALL_ENUMS[222]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[222], format!("{:?}", Link11ModeofOperation::deserialize(b))) },
    RecordKind { name: "Link11SignalIntegrationInterval", new: |g| EnumRec::draw(g, &ALL_ENUMS[223]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[223], format!("{:?}", Link11SignalIntegrationInterval::deserialize(b))) },
    RecordKind { name: "Link11SignalWaveform", new: |g| EnumRec::draw(g, &ALL_ENUMS[224]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[224], format!("{:?}", Link11SignalWaveform::deserialize(b))) },
    RecordKind { name: "Link11TerminalMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[225]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[225], format!("{:?}", Link11TerminalMode::deserialize(b))) },
    RecordKind { name: "Link11_11BEncryptionFlag", new: |g| EnumRec::draw(g, &ALL_ENUMS[226]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[226], format!("{:?}", Link11_11BEncryptionFlag::deserialize(b))) },
    RecordKind { name: "Link11_11BFidelityLevel", new: |g| EnumRec::draw(g, &ALL_ENUMS[227]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[227], format!("{:?}", Link11_11BFidelityLevel::deserialize(b))) },
    RecordKind { name: "Link16Version", new: |g| EnumRec::draw(g, &ALL_ENUMS[228]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[228], format!("{:?}", Link16Version::deserialize(b))) },
    RecordKind { name: "Material", new: |g| EnumRec::draw(g, &ALL_ENUMS[229]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[229], format!("{:?}", Material::deserialize(b))) },
    RecordKind { name: "MessageTypeIdentifier", new: |g| EnumRec::draw(g, &ALL_ENUMS[230]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[230], format!("{:?}", MessageTypeIdentifier::deserialize(b))) },
    RecordKind { name: "MinefieldAppearanceActiveStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[231]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[231], format!("{:?}", MinefieldAppearanceActiveStatus::deserialize(b))) },
    RecordKind { name: "MinefieldAppearanceLane", new: |g| EnumRec::draw(g, &ALL_ENUMS[232]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[232], format!("{:?}", MinefieldAppearanceLane::deserialize(b))) },
    RecordKind { name: "MinefieldAppearanceMinefieldType", new: |g| EnumRec::draw(g, &ALL_ENUMS[233]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[233], format!("{:?}", MinefieldAppearanceMinefieldType::deserialize(b))) },
    RecordKind { name: "MinefieldAppearanceState", new: |g| EnumRec::draw(g, &ALL_ENUMS[234]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[234], format!("{:?}", MinefieldAppearanceState::deserialize(b))) },
    RecordKind { name: "MinefieldFusingFuseType", new: |g| EnumRec::draw(g, &ALL_ENUMS[235]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[235], format!("{:?}", MinefieldFusingFuseType::deserialize(b))) },
    RecordKind { name: "MinefieldPaintSchemeAlgae", new: |g| EnumRec::draw(g, &ALL_ENUMS[236]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[236], format!("{:?}", MinefieldPaintSchemeAlgae::deserialize(b))) },
    RecordKind { name: "MinefieldPaintSchemePaintScheme", new: |g| EnumRec::draw(g, &ALL_ENUMS[237]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[237], format!("{:?}", MinefieldPaintSchemePaintScheme::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypes", new: |g| EnumRec::draw(g, &ALL_ENUMS[238]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[238], format!("{:?}", MinefieldSensorTypes::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesFLIR", new: |g| EnumRec::draw(g, &ALL_ENUMS[239]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[239], format!("{:?}", MinefieldSensorTypesFLIR::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesLaser", new: |g| EnumRec::draw(g, &ALL_ENUMS[240]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[240], format!("{:?}", MinefieldSensorTypesLaser::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesMagnetic", new: |g| EnumRec::draw(g, &ALL_ENUMS[241]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[241], format!("{:?}", MinefieldSensorTypesMagnetic::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesMultispectral", new: |g| EnumRec::draw(g, &ALL_ENUMS[242]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[242], format!("{:?}", MinefieldSensorTypesMultispectral::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesOptical", new: |g| EnumRec::draw(g, &ALL_ENUMS[243]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[243], format!("{:?}", MinefieldSensorTypesOptical::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesPhysical", new: |g| EnumRec::draw(g, &ALL_ENUMS[244]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[244], format!("{:?}", MinefieldSensorTypesPhysical::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesRADAR", new: |g| EnumRec::draw(g, &ALL_ENUMS[245]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[245], format!("{:?}", MinefieldSensorTypesRADAR::deserialize(b))) },
    RecordKind { name: "MinefieldSensorTypesSONAR", new: |g| EnumRec::draw(g, &ALL_ENUMS[246]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[246], format!("{:?}", MinefieldSensorTypesSONAR::deserialize(b))) },
    RecordKind { name: "MinefieldStateProtocolMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[247]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[247], format!("{:?}", MinefieldStateProtocolMode::deserialize(b))) },
    RecordKind { name: "Mode5IFFMission", new: |g| EnumRec::draw(g, &ALL_ENUMS[248]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[248], format!("{:?}", Mode5IFFMission::deserialize(b))) },
    RecordKind { name: "Mode5LevelSelection", new: |g| EnumRec::draw(g, &ALL_ENUMS[249]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[249], format!("{:?}", Mode5LevelSelection::deserialize(b))) },
    RecordKind { name: "Mode5LocationErrors", new: |g| EnumRec::draw(g, &ALL_ENUMS[250]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[250], format!("{:?}", Mode5LocationErrors::deserialize(b))) },
    RecordKind { name: "Mode5MessageFormatsStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[251]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[251], format!("{:?}", Mode5MessageFormatsStatus::deserialize(b))) },
    RecordKind { name: "Mode5PlatformType", new: |g| EnumRec::draw(g, &ALL_ENUMS[252]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[252], format!("{:?}", Mode5PlatformType::deserialize(b))) },
    RecordKind { name: "Mode5Reply", new: |g| EnumRec::draw(g, &ALL_ENUMS[253]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[253], format!("{:?}", Mode5Reply::deserialize(b))) },
    RecordKind { name: "Mode5SAltitudeResolution", new: |g| EnumRec::draw(g, &ALL_ENUMS[254]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[254], format!("{:?}", Mode5SAltitudeResolution::deserialize(b))) },
    RecordKind { name: "Mode5SquitterType", new: |g| EnumRec::draw(g, &ALL_ENUMS[255]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[255], format!("{:?}", Mode5SquitterType::deserialize(b))) },
    RecordKind { name: "ModeCAltitudeIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[256]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[256], format!("{:?}", ModeCAltitudeIndicator::deserialize(b))) },
    RecordKind { name: "ModeSInterrogatorIdentifierICType", new: |g| EnumRec::draw(g, &ALL_ENUMS[257]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[257], format!("{:?}", ModeSInterrogatorIdentifierICType::deserialize(b))) },
    RecordKind { name: "ModeSInterrogatorStatusTransmitState", new: |g| EnumRec::draw(g, &ALL_ENUMS[258]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[258], format!("{:?}", ModeSInterrogatorStatusTransmitState::deserialize(b))) },
    RecordKind { name: "ModeSSquitterRecordSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[259]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[259], format!("{:?}", ModeSSquitterRecordSource::deserialize(b))) },
    RecordKind { name: "ModeSSquitterType", new: |g| EnumRec::draw(g, &ALL_ENUMS[260]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[260], format!("{:?}", ModeSSquitterType::deserialize(b))) },
    RecordKind { name: "MunitionCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[261]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[261], format!("{:?}", MunitionCategory::deserialize(b))) },
    RecordKind { name: "MunitionDescriptorFuse", new: |g| EnumRec::draw(g, &ALL_ENUMS[262]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[262], format!("{:?}", MunitionDescriptorFuse::deserialize(b))) },
    RecordKind { name: "MunitionDescriptorWarhead", new: |g| EnumRec::draw(g, &ALL_ENUMS[263]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[263], format!("{:?}", MunitionDescriptorWarhead::deserialize(b))) },
    RecordKind { name: "MunitionExpendableStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[264]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[264], format!("{:?}", MunitionExpendableStatus::deserialize(b))) },
    RecordKind { name: "MunitionKind", new: |g| EnumRec::draw(g, &ALL_ENUMS[265]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[265], format!("{:?}", MunitionKind::deserialize(b))) },
    RecordKind { name: "NETIDRecordFrequencyTable", new: |g| EnumRec::draw(g, &ALL_ENUMS[266]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[266], format!("{:?}", NETIDRecordFrequencyTable::deserialize(b))) },
    RecordKind { name: "NETIDRecordMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[267]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[267], format!("{:?}", NETIDRecordMode::deserialize(b))) },
    RecordKind { name: "NavigationSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[268]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[268], format!("{:?}", NavigationSource::deserialize(b))) },
    RecordKind { name: "ObjectKind", new: |g| EnumRec::draw(g, &ALL_ENUMS[269]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[269], format!("{:?}", ObjectKind::deserialize(b))) },
    RecordKind { name: "OtherKinds", new: |g| EnumRec::draw(g, &ALL_ENUMS[270]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[270], format!("{:?}", OtherKinds::deserialize(b))) },
    RecordKind { name: "OwnershipStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[271]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[271], format!("{:?}", OwnershipStatus::deserialize(b))) },
    RecordKind { name: "Parachute", new: |g| EnumRec::draw(g, &ALL_ENUMS[272]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[272], format!("{:?}", Parachute::deserialize(b))) },
    RecordKind { name: "PduStatusIFFSimulationMode", new: |g| EnumRec::draw(g, &ALL_ENUMS[273]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[273], format!("{:?}", PduStatusIFFSimulationMode::deserialize(b))) },
    RecordKind { name: "PduType", new: |g| EnumRec::draw(g, &ALL_ENUMS[274]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[274], format!("{:?}", PduType::deserialize(b))) },
    RecordKind { name: "PhysicalAssociationTypeGroups", new: |g| EnumRec::draw(g, &ALL_ENUMS[275]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[275], format!("{:?}", PhysicalAssociationTypeGroups::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianFixedWingAircraftSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[276]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[276], format!("{:?}", PlatformAirCivilianFixedWingAircraftSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianGliderSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[277]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[277], format!("{:?}", PlatformAirCivilianGliderSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianHelicopterSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[278]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[278], format!("{:?}", PlatformAirCivilianHelicopterSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianLighterthanAirAirshipSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[279]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[279], format!("{:?}", PlatformAirCivilianLighterthanAirAirshipSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianLighterthanAirBalloonSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[280]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[280], format!("{:?}", PlatformAirCivilianLighterthanAirBalloonSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[281]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[281], format!("{:?}", PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformAirCivilianUltralightRigidWingAircraftSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[282]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[282], format!("{:?}", PlatformAirCivilianUltralightRigidWingAircraftSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandBusSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[283]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[283], format!("{:?}", PlatformLandBusSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandCarSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[284]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[284], format!("{:?}", PlatformLandCarSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandConstructionSpecialtyVehicleSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[285]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[285], format!("{:?}", PlatformLandConstructionSpecialtyVehicleSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandFarmSpecialtyVehicleSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[286]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[286], format!("{:?}", PlatformLandFarmSpecialtyVehicleSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandMotorcycleSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[287]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[287], format!("{:?}", PlatformLandMotorcycleSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandMultipleUnitCargoTruckSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[288]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[288], format!("{:?}", PlatformLandMultipleUnitCargoTruckSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[289]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[289], format!("{:?}", PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandNonmotorizedSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[290]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[290], format!("{:?}", PlatformLandNonmotorizedSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandRecreationalSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[291]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[291], format!("{:?}", PlatformLandRecreationalSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandSingleUnitCargoTruckSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[292]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[292], format!("{:?}", PlatformLandSingleUnitCargoTruckSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandSingleUnitUtilityEmergencyTruckSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[293]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[293], format!("{:?}", PlatformLandSingleUnitUtilityEmergencyTruckSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandTrailerSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[294]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[294], format!("{:?}", PlatformLandTrailerSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandTrainsSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[295]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[295], format!("{:?}", PlatformLandTrainsSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformLandUtilityEmergencyCarSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[296]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[296], format!("{:?}", PlatformLandUtilityEmergencyCarSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[297]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[297], format!("{:?}", PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfaceDryCargoShipSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[298]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[298], format!("{:?}", PlatformSurfaceDryCargoShipSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfaceFishingVesselSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[299]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[299], format!("{:?}", PlatformSurfaceFishingVesselSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfaceOtherVesselsSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[300]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[300], format!("{:?}", PlatformSurfaceOtherVesselsSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfacePassengerVesselSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[301]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[301], format!("{:?}", PlatformSurfacePassengerVesselSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfacePrivateMotorboatSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[302]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[302], format!("{:?}", PlatformSurfacePrivateMotorboatSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfacePrivateSailboatSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[303]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[303], format!("{:?}", PlatformSurfacePrivateSailboatSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfaceSupportVesselSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[304]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[304], format!("{:?}", PlatformSurfaceSupportVesselSubcategories::deserialize(b))) },
    RecordKind { name: "PlatformSurfaceTankerSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[305]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[305], format!("{:?}", PlatformSurfaceTankerSubcategories::deserialize(b))) },
    RecordKind { name: "ProtocolFamily", new: |g| EnumRec::draw(g, &ALL_ENUMS[306]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[306], format!("{:?}", ProtocolFamily::deserialize(b))) },
    RecordKind { name: "ProtocolVersion", new: |g| EnumRec::draw(g, &ALL_ENUMS[307]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[307], format!("{:?}", ProtocolVersion::deserialize(b))) },
    RecordKind { name: "RadioAttachedIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[308]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[308], format!("{:?}", RadioAttachedIndicator::deserialize(b))) },
    RecordKind { name: "RadioCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[309]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[309], format!("{:?}", RadioCategory::deserialize(b))) },
    RecordKind { name: "RadioSubcategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[310]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[310], format!("{:?}", RadioSubcategory::deserialize(b))) },
    RecordKind { name: "Reason", new: |g| EnumRec::draw(g, &ALL_ENUMS[311]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[311], format!("{:?}", Reason::deserialize(b))) },
    RecordKind { name: "ReceiverReceiverState", new: |g| EnumRec::draw(g, &ALL_ENUMS[312]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[312], format!("{:?}", ReceiverReceiverState::deserialize(b))) },
    RecordKind { name: "RecordQueryREventType", new: |g| EnumRec::draw(g, &ALL_ENUMS[313]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[313], format!("{:?}", RecordQueryREventType::deserialize(b))) },
    RecordKind { name: "RecordREventType", new: |g| EnumRec::draw(g, &ALL_ENUMS[314]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[314], format!("{:?}", RecordREventType::deserialize(b))) },
    RecordKind { name: "RepairCompleteRepair", new: |g| EnumRec::draw(g, &ALL_ENUMS[315]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[315], format!("{:?}", RepairCompleteRepair::deserialize(b))) },
    RecordKind { name: "RepairGroups", new: |g| EnumRec::draw(g, &ALL_ENUMS[316]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[316], format!("{:?}", RepairGroups::deserialize(b))) },
    RecordKind { name: "RepairResponseRepairResult", new: |g| EnumRec::draw(g, &ALL_ENUMS[317]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[317], format!("{:?}", RepairResponseRepairResult::deserialize(b))) },
    RecordKind { name: "ReplyAmplification", new: |g| EnumRec::draw(g, &ALL_ENUMS[318]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[318], format!("{:?}", ReplyAmplification::deserialize(b))) },
    RecordKind { name: "RequiredReliabilityService", new: |g| EnumRec::draw(g, &ALL_ENUMS[319]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[319], format!("{:?}", RequiredReliabilityService::deserialize(b))) },
    RecordKind { name: "RussiaWeaponSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[320]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[320], format!("{:?}", RussiaWeaponSubcategories::deserialize(b))) },
    RecordKind { name: "SISOSTD002Version", new: |g| EnumRec::draw(g, &ALL_ENUMS[321]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[321], format!("{:?}", SISOSTD002Version::deserialize(b))) },
    RecordKind { name: "Season", new: |g| EnumRec::draw(g, &ALL_ENUMS[322]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[322], format!("{:?}", Season::deserialize(b))) },
    RecordKind { name: "SensorEmitterCategory", new: |g| EnumRec::draw(g, &ALL_ENUMS[323]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[323], format!("{:?}", SensorEmitterCategory::deserialize(b))) },
    RecordKind { name: "SensorOnOffStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[324]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[324], format!("{:?}", SensorOnOffStatus::deserialize(b))) },
    RecordKind { name: "SensorRecordSensorTypeOtherActiveSensors", new: |g| EnumRec::draw(g, &ALL_ENUMS[325]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[325], format!("{:?}", SensorRecordSensorTypeOtherActiveSensors::deserialize(b))) },
    RecordKind { name: "SensorRecordSensorTypePassiveSensors", new: |g| EnumRec::draw(g, &ALL_ENUMS[326]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[326], format!("{:?}", SensorRecordSensorTypePassiveSensors::deserialize(b))) },
    RecordKind { name: "SensorTypeSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[327]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[327], format!("{:?}", SensorTypeSource::deserialize(b))) },
    RecordKind { name: "SeparationVPPreEntityIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[328]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[328], format!("{:?}", SeparationVPPreEntityIndicator::deserialize(b))) },
    RecordKind { name: "SeparationVPReasonforSeparation", new: |g| EnumRec::draw(g, &ALL_ENUMS[329]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[329], format!("{:?}", SeparationVPReasonforSeparation::deserialize(b))) },
    RecordKind { name: "ServiceRequestServiceTypeRequested", new: |g| EnumRec::draw(g, &ALL_ENUMS[330]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[330], format!("{:?}", ServiceRequestServiceTypeRequested::deserialize(b))) },
    RecordKind { name: "SignalEncodingClass", new: |g| EnumRec::draw(g, &ALL_ENUMS[331]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[331], format!("{:?}", SignalEncodingClass::deserialize(b))) },
    RecordKind { name: "SignalEncodingType", new: |g| EnumRec::draw(g, &ALL_ENUMS[332]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[332], format!("{:?}", SignalEncodingType::deserialize(b))) },
    RecordKind { name: "SignalTDLType", new: |g| EnumRec::draw(g, &ALL_ENUMS[333]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[333], format!("{:?}", SignalTDLType::deserialize(b))) },
    RecordKind { name: "SignalUserProtocolIdentificationNumber", new: |g| EnumRec::draw(g, &ALL_ENUMS[334]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[334], format!("{:?}", SignalUserProtocolIdentificationNumber::deserialize(b))) },
    RecordKind { name: "SpaceDomainCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[335]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[335], format!("{:?}", SpaceDomainCategories::deserialize(b))) },
    RecordKind { name: "SpecificDimensionEnumerationsforAirAreaSize", new: |g| EnumRec::draw(g, &ALL_ENUMS[336]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[336], format!("{:?}", SpecificDimensionEnumerationsforAirAreaSize::deserialize(b))) },
    RecordKind { name: "SpecificDimensionEnumerationsforLandAreaSize", new: |g| EnumRec::draw(g, &ALL_ENUMS[337]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[337], format!("{:?}", SpecificDimensionEnumerationsforLandAreaSize::deserialize(b))) },
    RecordKind { name: "SpotChaffStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[338]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[338], format!("{:?}", SpotChaffStatus::deserialize(b))) },
    RecordKind { name: "SubcategoriesforAirCategory200Bird", new: |g| EnumRec::draw(g, &ALL_ENUMS[339]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[339], format!("{:?}", SubcategoriesforAirCategory200Bird::deserialize(b))) },
    RecordKind { name: "SubcategoriesforAirCategory201Insect", new: |g| EnumRec::draw(g, &ALL_ENUMS[340]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[340], format!("{:?}", SubcategoriesforAirCategory201Insect::deserialize(b))) },
    RecordKind { name: "SubcategoriesforAirCategory202Mammal", new: |g| EnumRec::draw(g, &ALL_ENUMS[341]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[341], format!("{:?}", SubcategoriesforAirCategory202Mammal::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory200Mammal", new: |g| EnumRec::draw(g, &ALL_ENUMS[342]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[342], format!("{:?}", SubcategoriesforLandCategory200Mammal::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory201Reptile", new: |g| EnumRec::draw(g, &ALL_ENUMS[343]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[343], format!("{:?}", SubcategoriesforLandCategory201Reptile::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory202Amphibian", new: |g| EnumRec::draw(g, &ALL_ENUMS[344]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[344], format!("{:?}", SubcategoriesforLandCategory202Amphibian::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory203Insect", new: |g| EnumRec::draw(g, &ALL_ENUMS[345]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[345], format!("{:?}", SubcategoriesforLandCategory203Insect::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory204Arachnid", new: |g| EnumRec::draw(g, &ALL_ENUMS[346]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[346], format!("{:?}", SubcategoriesforLandCategory204Arachnid::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory205Mollusk", new: |g| EnumRec::draw(g, &ALL_ENUMS[347]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[347], format!("{:?}", SubcategoriesforLandCategory205Mollusk::deserialize(b))) },
    RecordKind { name: "SubcategoriesforLandCategory206Marsupial", new: |g| EnumRec::draw(g, &ALL_ENUMS[348]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[348], format!("{:?}", SubcategoriesforLandCategory206Marsupial::deserialize(b))) },
    RecordKind { name: "SubcategoriesforSubsurfaceCategory200Fish", new: |g| EnumRec::draw(g, &ALL_ENUMS[349]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[349], format!("{:?}", SubcategoriesforSubsurfaceCategory200Fish::deserialize(b))) },
    RecordKind { name: "SubcategoriesforSubsurfaceCategory201Mammal", new: |g| EnumRec::draw(g, &ALL_ENUMS[350]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[350], format!("{:?}", SubcategoriesforSubsurfaceCategory201Mammal::deserialize(b))) },
    RecordKind { name: "SubcategoriesforSubsurfaceCategory202Mollusk", new: |g| EnumRec::draw(g, &ALL_ENUMS[351]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[351], format!("{:?}", SubcategoriesforSubsurfaceCategory202Mollusk::deserialize(b))) },
    RecordKind { name: "SubcategoriesforSubsurfaceCategory203Crustacean", new: |g| EnumRec::draw(g, &ALL_ENUMS[352]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[352], format!("{:?}", SubcategoriesforSubsurfaceCategory203Crustacean::deserialize(b))) },
    RecordKind { name: "SubcategoriesforSubsurfaceCategory204Insect", new: |g| EnumRec::draw(g, &ALL_ENUMS[353]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[353], format!("{:?}", SubcategoriesforSubsurfaceCategory204Insect::deserialize(b))) },
    RecordKind { name: "SubsurfaceDomainCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[354]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[354], format!("{:?}", SubsurfaceDomainCategories::deserialize(b))) },
    RecordKind { name: "SupplyDomain", new: |g| EnumRec::draw(g, &ALL_ENUMS[355]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[355], format!("{:?}", SupplyDomain::deserialize(b))) },
    RecordKind { name: "SupplyFuelType", new: |g| EnumRec::draw(g, &ALL_ENUMS[356]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[356], format!("{:?}", SupplyFuelType::deserialize(b))) },
    RecordKind { name: "SurfaceDomainCategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[357]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[357], format!("{:?}", SurfaceDomainCategories::deserialize(b))) },
    RecordKind { name: "SurveillanceStatus", new: |g| EnumRec::draw(g, &ALL_ENUMS[358]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[358], format!("{:?}", SurveillanceStatus::deserialize(b))) },
    RecordKind { name: "TCASACASBasicAdvancedIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[359]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[359], format!("{:?}", TCASACASBasicAdvancedIndicator::deserialize(b))) },
    RecordKind { name: "TCASACASIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[360]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[360], format!("{:?}", TCASACASIndicator::deserialize(b))) },
    RecordKind { name: "TCASACASSoftwareVersion", new: |g| EnumRec::draw(g, &ALL_ENUMS[361]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[361], format!("{:?}", TCASACASSoftwareVersion::deserialize(b))) },
    RecordKind { name: "TCASACASType", new: |g| EnumRec::draw(g, &ALL_ENUMS[362]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[362], format!("{:?}", TCASACASType::deserialize(b))) },
    RecordKind { name: "TCASIIIType", new: |g| EnumRec::draw(g, &ALL_ENUMS[363]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[363], format!("{:?}", TCASIIIType::deserialize(b))) },
    RecordKind { name: "TILinkType", new: |g| EnumRec::draw(g, &ALL_ENUMS[364]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[364], format!("{:?}", TILinkType::deserialize(b))) },
    RecordKind { name: "TimeSlotAllocationLevel", new: |g| EnumRec::draw(g, &ALL_ENUMS[365]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[365], format!("{:?}", TimeSlotAllocationLevel::deserialize(b))) },
    RecordKind { name: "TimeTypeSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[366]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[366], format!("{:?}", TimeTypeSource::deserialize(b))) },
    RecordKind { name: "TransferControlTransferType", new: |g| EnumRec::draw(g, &ALL_ENUMS[367]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[367], format!("{:?}", TransferControlTransferType::deserialize(b))) },
    RecordKind { name: "TransferredEntityIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[368]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[368], format!("{:?}", TransferredEntityIndicator::deserialize(b))) },
    RecordKind { name: "TransmissionIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[369]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[369], format!("{:?}", TransmissionIndicator::deserialize(b))) },
    RecordKind { name: "TransmitterAntennaPatternReferenceSystem", new: |g| EnumRec::draw(g, &ALL_ENUMS[370]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[370], format!("{:?}", TransmitterAntennaPatternReferenceSystem::deserialize(b))) },
    RecordKind { name: "TransmitterAntennaPatternType", new: |g| EnumRec::draw(g, &ALL_ENUMS[371]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[371], format!("{:?}", TransmitterAntennaPatternType::deserialize(b))) },
    RecordKind { name: "TransmitterCryptoSystem", new: |g| EnumRec::draw(g, &ALL_ENUMS[372]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[372], format!("{:?}", TransmitterCryptoSystem::deserialize(b))) },
    RecordKind { name: "TransmitterDetailAmplitudeModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[373]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[373], format!("{:?}", TransmitterDetailAmplitudeModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailAmplitudeandAngleModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[374]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[374], format!("{:?}", TransmitterDetailAmplitudeandAngleModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailAngleModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[375]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[375], format!("{:?}", TransmitterDetailAngleModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailCarrierPhaseShiftModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[376]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[376], format!("{:?}", TransmitterDetailCarrierPhaseShiftModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailCombinationModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[377]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[377], format!("{:?}", TransmitterDetailCombinationModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailPulseModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[378]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[378], format!("{:?}", TransmitterDetailPulseModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailSATCOMModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[379]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[379], format!("{:?}", TransmitterDetailSATCOMModulation::deserialize(b))) },
    RecordKind { name: "TransmitterDetailUnmodulatedModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[380]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[380], format!("{:?}", TransmitterDetailUnmodulatedModulation::deserialize(b))) },
    RecordKind { name: "TransmitterInputSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[381]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[381], format!("{:?}", TransmitterInputSource::deserialize(b))) },
    RecordKind { name: "TransmitterMajorModulation", new: |g| EnumRec::draw(g, &ALL_ENUMS[382]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[382], format!("{:?}", TransmitterMajorModulation::deserialize(b))) },
    RecordKind { name: "TransmitterModulationTypeSystem", new: |g| EnumRec::draw(g, &ALL_ENUMS[383]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[383], format!("{:?}", TransmitterModulationTypeSystem::deserialize(b))) },
    RecordKind { name: "TransmitterTransmitState", new: |g| EnumRec::draw(g, &ALL_ENUMS[384]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[384], format!("{:?}", TransmitterTransmitState::deserialize(b))) },
    RecordKind { name: "TransponderInterrogatorIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[385]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[385], format!("{:?}", TransponderInterrogatorIndicator::deserialize(b))) },
    RecordKind { name: "TurnRateSource", new: |g| EnumRec::draw(g, &ALL_ENUMS[386]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[386], format!("{:?}", TurnRateSource::deserialize(b))) },
    RecordKind { name: "UAAcousticEmitterSystemFunction", new: |g| EnumRec::draw(g, &ALL_ENUMS[387]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[387], format!("{:?}", UAAcousticEmitterSystemFunction::deserialize(b))) },
    RecordKind { name: "UAAcousticSystemName", new: |g| EnumRec::draw(g, &ALL_ENUMS[388]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[388], format!("{:?}", UAAcousticSystemName::deserialize(b))) },
    RecordKind { name: "UAActiveEmissionParameterIndex", new: |g| EnumRec::draw(g, &ALL_ENUMS[389]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[389], format!("{:?}", UAActiveEmissionParameterIndex::deserialize(b))) },
    RecordKind { name: "UAAdditionalPassiveActivityParameterIndex", new: |g| EnumRec::draw(g, &ALL_ENUMS[390]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[390], format!("{:?}", UAAdditionalPassiveActivityParameterIndex::deserialize(b))) },
    RecordKind { name: "UAPassiveParameterIndex", new: |g| EnumRec::draw(g, &ALL_ENUMS[391]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[391], format!("{:?}", UAPassiveParameterIndex::deserialize(b))) },
    RecordKind { name: "UAPropulsionPlantConfigurationConfiguration", new: |g| EnumRec::draw(g, &ALL_ENUMS[392]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[392], format!("{:?}", UAPropulsionPlantConfigurationConfiguration::deserialize(b))) },
    RecordKind { name: "UAScanPattern", new: |g| EnumRec::draw(g, &ALL_ENUMS[393]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[393], format!("{:?}", UAScanPattern::deserialize(b))) },
    RecordKind { name: "UAStateChangeUpdateIndicator", new: |g| EnumRec::draw(g, &ALL_ENUMS[394]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[394], format!("{:?}", UAStateChangeUpdateIndicator::deserialize(b))) },
    RecordKind { name: "UKWeaponSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[395]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[395], format!("{:?}", UKWeaponSubcategories::deserialize(b))) },
    RecordKind { name: "USWeaponSubcategories", new: |g| EnumRec::draw(g, &ALL_ENUMS[396]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[396], format!("{:?}", USWeaponSubcategories::deserialize(b))) },
    RecordKind { name: "VariableParameterRecordType", new: |g| EnumRec::draw(g, &ALL_ENUMS[397]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[397], format!("{:?}", VariableParameterRecordType::deserialize(b))) },
    RecordKind { name: "VariableRecordTypes", new: |g| EnumRec::draw(g, &ALL_ENUMS[398]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[398], format!("{:?}", VariableRecordTypes::deserialize(b))) },
    RecordKind { name: "VariantsforAirCategory200Bird", new: |g| EnumRec::draw(g, &ALL_ENUMS[399]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[399], format!("{:?}", VariantsforAirCategory200Bird::deserialize(b))) },
    RecordKind { name: "VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids", new: |g| EnumRec::draw(g, &ALL_ENUMS[400]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[400], format!("{:?}", VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids::deserialize(b))) },
    RecordKind { name: "VariantsforSubsurfaceCategory201Mammal", new: |g| EnumRec::draw(g, &ALL_ENUMS[401]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,
      de: |b, _| EnumRec::named(&ALL_ENUMS[401], format!("{:?}", VariantsforSubsurfaceCategory201Mammal::deserialize(b))) },
];
pub const FIRST_ENUM: usize = RECORDS.len() - ALL_ENUMS.len();
pub static ALL_ENUMS: &[EnumDef] = &[
    EnumDef { name: "APAParameterIndexAPAStatus", width: 1, default: 0, values: &[(0, "DeselectedOff"), (1, "APAValueChangeOnly"), (2, "StateChange"), (3, "RecordActivation")] },
    EnumDef { name: "AcknowledgeFlag", width: 2, default: 1, values: &[(1, "CreateEntity"), (2, "RemoveEntity"), (3, "StartResume"), (4, "StopFreeze"), (5, "TransferOwnership")] },
    EnumDef { name: "AcknowledgeResponseFlag", width: 2, default: 0, values: &[(0, "Other"), (1, "AbleToComply"), (2, "UnableToComply"), (3, "PendingOperatorAction")] },
    EnumDef { name: "ActionRequestActionID", width: 4, default: 0, values: &[(0, "Other"), (1, "LocalStorageOfTherRequestedInformation"), (2, "InformSMofEventRanOutOfAmmunition"), (3, "InformSMofEventKilledInAction"), (4, "InformSMofEventDamage"), (5, "InformSMofEventMobilityDisabled"), (6, "InformSMofEventFiredDisabled"), (7, "InformSMofEventRanOutOfFuel"), (8, "RecallCheckpointData"), (9, "RecallInitialParameters"), (10, "InitiateTetherLead"), (11, "InitiateTetherFollow"), (12, "Unthether"), (13, "InitiateServiceStationResupply"), (14, "InitiateTailgateResupply"), (15, "InitiateHitchLead"), (16, "InitiateHitchFollow"), (17, "Unhitch"), (18, "Mount"), (19, "Dismount"), (20, "StartDRC"), (21, "StopDRC"), (22, "DataQuery"), (23, "StatusRequest"), (24, "SendObjectStateData"), (25, "Reconstitute"), (26, "LockSiteConfiguration"), (27, "UnlockSiteConfiguration"), (28, "UpdateSiteConfiguration"), (29, "QuerySiteConfiguration"), (30, "TetheringInformation"), (31, "MountIntent"), (33, "AcceptSubscription"), (34, "Unsubscribe"), (35, "TeleportEntity"), (36, "ChangeAggregateState"), (37, "RequestStartPDU"), (38, "WakeupGetReadyForInitialization"), (39, "InitializeInternalParameters"), (40, "SendPlanData"), (41, "SynchronizeInternalClocks"), (42, "Run"), (43, "SaveInternalParameters"), (44, "SimulateMalfunction"), (45, "JoinExercise"), (46, "ResignExercise"), (47, "TimeAdvance"), (100, "TACCSFLOSRequestType1"), (101, "TACCSFLOSRequestType2"), (4303, "AirmountMountRequest"), (4304, "AirmountDismountRequest"), (4305, "AirmountInformationRequest")] },
    EnumDef { name: "ActionResponseRequestStatus", width: 4, default: 0, values: &[(0, "Other"), (1, "Pending"), (2, "Executing"), (3, "PartiallyComplete"), (4, "Complete"), (5, "RequestRejected"), (6, "RetransmitRequestNow"), (7, "RetransmitRequestLater"), (8, "InvalidTimeParameters"), (9, "SimulationTimeExceeded"), (10, "RequestDone"), (100, "TACCSFLOSReplyTypeOne"), (101, "TACCSFLOSReplyTypeTwo"), (201, "JoinExerciseRequestRejected")] },
    EnumDef { name: "ActiveInterrogationIndicator", width: 1, default: 0, values: &[(0, "NotActive"), (1, "Active")] },
    EnumDef { name: "AddSpecificDimensionEnumerationsforSubsurfaceAreaSize", width: 1, default: 222, values: &[(222, "SmallSchool"), (223, "SmallSchoolDense"), (224, "MediumSchool"), (225, "MediumSchoolDense"), (226, "LargeSchool"), (227, "LargeSchoolDense")] },
    EnumDef { name: "AddVariantsforAirCategory201Insect", width: 1, default: 1, values: &[(1, "VerticalShapedInsectSwarm"), (2, "CircularShapedInsectSwarm"), (3, "IrregularShapedInsectSwarm")] },
    EnumDef { name: "AddVariantsforLandCategory200Mammal", width: 1, default: 1, values: &[(1, "AnimalwithaMaleChildRider"), (2, "AnimalwithaFemaleChildRider"), (3, "AnimalwithanAdultMaleRider"), (4, "AnimalwithanAdultFemaleRider"), (5, "AnimalHarnessedtoaPlow"), (6, "AnimalHarnessedtoaCart")] },
    EnumDef { name: "AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect", width: 1, default: 1, values: &[(1, "Black"), (2, "Green"), (3, "Spotted"), (4, "Red"), (5, "Brown"), (6, "Blue"), (7, "Silver"), (8, "Grey")] },
    EnumDef { name: "AggregateStateAggregateKind", width: 1, default: 0, values: &[(0, "Other"), (1, "MilitaryHierarchy"), (2, "CommonType"), (3, "CommonMission"), (4, "SimilarCapabilities"), (5, "CommonLocation")] },
    EnumDef { name: "AggregateStateAggregateState", width: 1, default: 0, values: &[(0, "Other"), (1, "Aggregated"), (2, "Disaggregated"), (3, "Fullydisaggregated"), (4, "Pseudodisaggregated"), (5, "Partiallydisaggregated")] },
    EnumDef { name: "AggregateStateFormation", width: 4, default: 0, values: &[(0, "Other"), (1, "Assembly"), (2, "Vee"), (3, "Wedge"), (4, "Line"), (5, "Column")] },
    EnumDef { name: "AggregateStateSpecific", width: 1, default: 0, values: &[(0, "Noheadquarters"), (1, "Yesaggregateunitcontainsaheadquarters")] },
    EnumDef { name: "AggregateStateSubcategory", width: 1, default: 0, values: &[(0, "Other"), (1, "CavalryTroop"), (2, "Armor"), (3, "Infantry"), (4, "MechanizedInfantry"), (5, "Cavalry"), (6, "ArmoredCavalry"), (7, "Artillery"), (8, "SelfPropelledArtillery"), (9, "CloseAirSupport"), (10, "Engineer"), (11, "AirDefenseArtillery"), (12, "AntiTank"), (13, "ArmyAviationFixedwing"), (14, "ArmyAviationRotarywing"), (15, "ArmyAttackHelicopter"), (16, "AirCavalry"), (17, "ArmorHeavyTaskForce"), (18, "MotorizedRifle"), (19, "MechanizedHeavyTaskForce"), (20, "CommandPost"), (21, "CEWI"), (22, "Tankonly")] },
    EnumDef { name: "AirDomainCategories", width: 1, default: 0, values: &[(0, "Other"), (1, "FighterAirDefense"), (2, "AttackStrike"), (3, "Bomber"), (4, "CargoTanker"), (5, "ASWPatrolObservation"), (6, "ElectronicWarfare"), (7, "Reconnaissance"), (8, "SurveillanceC2"), (9, "AirSeaRescue"), (20, "AttackHelicopter"), (21, "UtilityHelicopter"), (22, "AntiSubmarineWarfarePatrolHelicopter"), (23, "CargoHelicopter"), (24, "ObservationHelicopter"), (25, "SpecialOperationsHelicopter"), (26, "TrainingHelicopter"), (40, "Trainer"), (50, "Unmanned"), (57, "NonCombatantCommercialAircraft"), (80, "CivilianUltralightAircraftNonrigidWing"), (81, "CivilianUltralightAircraftRigidWing"), (83, "CivilianFixedWingAircraftGlider"), (84, "CivilianFixedWingAircraftLightSport"), (85, "CivilianFixedWingAircraftSmall"), (86, "CivilianFixedWingAircraftMedium"), (87, "CivilianFixedWingAircraftLarge"), (88, "CivilianFixedWingAircraftHeavy"), (90, "CivilianHelicopterSmall"), (91, "CivilianHelicopterMedium"), (92, "CivilianHelicopterLarge"), (93, "CivilianAutogyro"), (100, "CivilianLighterthanAirBalloon"), (101, "CivilianLighterthanAirAirship")] },
    EnumDef { name: "AircraftAddressSource", width: 1, default: 0, values: &[(0, "ModeSAircraftAddressFieldValue"), (1, "GICBIFFDataRecordAvailable")] },
    EnumDef { name: "AircraftIDSource", width: 1, default: 0, values: &[(0, "ModeSAircraftIdentificationFieldValue"), (1, "GICBIFFDataRecordAvailable")] },
    EnumDef { name: "AircraftIdentificationType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "FlightNumber"), (2, "TailNumber")] },
    EnumDef { name: "AircraftPresentDomain", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Airborne"), (2, "OnGroundSurface")] },
    EnumDef { name: "AircraftTypeWake", width: 1, default: 0, values: &[(0, "NoStatement")] },
    EnumDef { name: "AnimalLifeformGroupSizeRangeEnumerationforallDomains", width: 1, default: 201, values: &[(201, "Numberofanimalsrangefrom201to249"), (202, "Numberofanimalsrangefrom250to299"), (203, "Numberofanimalsrangefrom300to399"), (204, "Numberofanimalsrangefrom400to499"), (205, "Numberofanimalsrangefrom500to999"), (206, "Numberofanimalsrangefrom1000to1499"), (207, "Numberofanimalsrangefrom1500to1999"), (208, "Numberofanimalsrangefrom2000to2999"), (210, "Numberofanimalsrangefrom3000to4999"), (212, "Numberofanimalsrangefrom5000to6999"), (214, "Numberofanimalsrangefrom7000to9999"), (216, "Numberofanimalsrangefrom10000to19999"), (218, "Numberofanimalsrangefrom20000to50000"), (220, "Numberofanimalsrangegreaterthan50000")] },
    EnumDef { name: "AntennaSelection", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Top"), (2, "Bottom"), (3, "Diversity")] },
    EnumDef { name: "AntennaStatus", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "NotAbletoEmit"), (2, "AbletoEmit")] },
    EnumDef { name: "AppearanceAntiCollisionDayNight", width: 1, default: 0, values: &[(0, "Day"), (1, "Night")] },
    EnumDef { name: "AppearanceCamouflageType", width: 1, default: 0, values: &[(0, "DesertCamouflage"), (1, "WinterCamouflage"), (2, "ForestCamouflage"), (3, "Other")] },
    EnumDef { name: "AppearanceCanopy", width: 1, default: 0, values: &[(0, "NotApplicable"), (1, "SingleCanopySingleTroopDoorClosed"), (2, "FrontandRearCanopyLeftandRightTroopDoorClosed"), (3, "FrontCanopyLeftTroopDoorOpen"), (4, "SingleCanopySingleTroopDoorOpen"), (5, "RearCanopyRightTroopDoorOpen"), (6, "FrontandRearCanopyLeftandRightTroopDoorOpen")] },
    EnumDef { name: "AppearanceConcealedMovement", width: 1, default: 0, values: &[(0, "OpenMovement"), (1, "RushesBetweenCoveredPositions")] },
    EnumDef { name: "AppearanceConcealedPosition", width: 1, default: 0, values: &[(0, "NotConcealed"), (1, "PreparedConcealedPosition")] },
    EnumDef { name: "AppearanceDamage", width: 1, default: 0, values: &[(0, "NoDamage"), (1, "SlightDamage"), (2, "ModerateDamage"), (3, "Destroyed")] },
    EnumDef { name: "AppearanceEntityorObjectState", width: 1, default: 0, values: &[(0, "Active"), (1, "Deactivated")] },
    EnumDef { name: "AppearanceEnvironmentalDensity", width: 1, default: 0, values: &[(0, "Clear"), (1, "Hazy"), (2, "Dense"), (3, "VeryDense"), (4, "Opaque")] },
    EnumDef { name: "AppearanceHatch", width: 1, default: 0, values: &[(0, "NotApplicable"), (1, "Closed"), (2, "Popped"), (3, "PoppedandPersonIsVisible"), (4, "Open"), (5, "OpenandPersonIsVisible")] },
    EnumDef { name: "AppearanceLauncherOperational", width: 1, default: 0, values: &[(0, "NotRaisedNotOperational"), (1, "RaisedOperational")] },
    EnumDef { name: "AppearanceLifeFormComplianceStatus", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "Detained"), (2, "Surrender"), (3, "UsingFists"), (4, "VerbalAbuseLevel1"), (5, "VerbalAbuseLevel2"), (6, "VerbalAbuseLevel3"), (7, "PassiveResistanceLevel1"), (8, "PassiveResistanceLevel2"), (9, "PassiveResistanceLevel3"), (10, "UsingNonLethalWeapon1"), (11, "UsingNonLethalWeapon2"), (12, "UsingNonLethalWeapon3"), (13, "UsingNonLethalWeapon4"), (14, "UsingNonLethalWeapon5"), (15, "UsingNonLethalWeapon6")] },
    EnumDef { name: "AppearanceLifeFormPosture", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "UprightStandingStill"), (2, "UprightWalking"), (3, "UprightRunning"), (4, "Kneeling"), (5, "Prone"), (6, "Crawling"), (7, "Swimming"), (8, "Parachuting"), (9, "Jumping"), (10, "Sitting"), (11, "Squatting"), (12, "Crouching"), (13, "Wading"), (14, "Surrender"), (15, "Detained")] },
    EnumDef { name: "AppearanceLifeFormWeaponImplement", width: 1, default: 0, values: &[(0, "NotPresent"), (1, "Stowed"), (2, "DeployedActive"), (3, "FiringPositionInUse")] },
    EnumDef { name: "AppearanceLifeformHealth", width: 1, default: 0, values: &[(0, "NoInjury"), (1, "SlightInjury"), (2, "ModerateInjury"), (3, "FatalInjury")] },
    EnumDef { name: "AppearanceLinearObjectLaneMarkerVisible", width: 1, default: 0, values: &[(0, "LeftSideIsVisible"), (1, "RightSideIsVisible"), (2, "BothSidesAreVisible")] },
    EnumDef { name: "AppearanceLinearObjectTankDitchBreach", width: 1, default: 0, values: &[(0, "NoBreaching"), (1, "SlightBreaching"), (2, "ModerateBreached"), (3, "Cleared")] },
    EnumDef { name: "AppearanceNVGMode", width: 1, default: 0, values: &[(0, "OvertLighting"), (1, "CovertLighting")] },
    EnumDef { name: "AppearanceNavigationPositionBrightness", width: 1, default: 0, values: &[(0, "Dim"), (1, "Bright")] },
    EnumDef { name: "AppearanceObjectGeneralDamage", width: 1, default: 0, values: &[(0, "NoDamage"), (1, "Damaged"), (2, "Destroyed")] },
    EnumDef { name: "AppearanceObjectGeneralIEDPresent", width: 1, default: 0, values: &[(0, "None"), (1, "Visible"), (2, "PartiallyHidden"), (3, "CompletelyHidden")] },
    EnumDef { name: "AppearanceObjectGeneralPredistributed", width: 1, default: 0, values: &[(0, "ObjectCreatedDuringtheExercise"), (1, "ObjectPredistributedPriortoExerciseStart")] },
    EnumDef { name: "AppearanceObjectSpecificBreachState", width: 1, default: 0, values: &[(0, "NoBreaching"), (1, "Breached"), (2, "Cleared")] },
    EnumDef { name: "AppearanceObjectSpecificChemicalType", width: 1, default: 0, values: &[(0, "Other"), (1, "Hydrochloric"), (2, "WhitePhosphorous"), (3, "RedPhosphorous")] },
    EnumDef { name: "AppearancePaintScheme", width: 1, default: 0, values: &[(0, "UniformColor"), (1, "Camouflage")] },
    EnumDef { name: "AppearanceSubsurfaceHatch", width: 1, default: 0, values: &[(0, "NotApplicable"), (1, "HatchIsClosed"), (4, "HatchIsOpen")] },
    EnumDef { name: "AppearanceSupplyDeployed", width: 1, default: 0, values: &[(0, "NotApplicable"), (1, "Stowed"), (2, "Deployed"), (3, "DeployedandActive")] },
    EnumDef { name: "AppearanceTrailingEffects", width: 1, default: 0, values: &[(0, "None"), (1, "Small"), (2, "Medium"), (3, "Large")] },
    EnumDef { name: "ArticulatedPartsTypeClass", width: 4, default: 0, values: &[(0, "NotSpecified"), (1024, "Rudder"), (1056, "LeftFlap"), (1088, "RightFlap"), (1120, "LeftAileron"), (1152, "RightAileron"), (1184, "HelicopterMainRotor"), (1216, "HelicopterTailRotor"), (1248, "OtherAircraftControlSurfacesDefinedasNeeded"), (1280, "PropellerNumber1"), (1312, "PropellerNumber2"), (1344, "PropellerNumber3"), (1376, "PropellerNumber4"), (1408, "LeftStabilator"), (1440, "RightStabilator"), (1472, "LeftRuddervator"), (1504, "RightRuddervator"), (1536, "LeftLeadingEdgeFlapSlat"), (1568, "RightLeadingEdgeFlapSlat"), (1600, "LeftElevator"), (1632, "RightElevator"), (1664, "CanardLeft"), (1696, "CanardRight"), (1728, "ElevonInnerLeft"), (1760, "ElevonInnerRight"), (1792, "ElevonMiddleLeft"), (1824, "ElevonMiddleRight"), (1856, "ElevonOuterLeft"), (1888, "ElevonOuterRight"), (1920, "Canopy"), (1952, "SpoilerLeft"), (1984, "SpoilerRight"), (2048, "Periscope"), (2080, "GenericAntenna"), (2112, "Snorkel"), (2144, "OtherExtendiblePartsDefinedasNeeded"), (2176, "DivePlaneSailLeft"), (2208, "DivePlaneSailRight"), (2240, "DivePlaneBowLeft"), (2272, "DivePlaneBowRight"), (2304, "DivePlaneSternLeft"), (2336, "DivePlaneSternRight"), (3072, "LandingGear"), (3104, "TailHook"), (3136, "SpeedBrake"), (3168, "LeftDoorofPrimaryWeaponBay"), (3200, "RightDoorofPrimaryWeaponBay"), (3232, "TankorAPCHatch"), (3264, "Wingsweep"), (3296, "BridgeLauncher"), (3328, "BridgeSection1"), (3360, "BridgeSection2"), (3392, "BridgeSection3"), (3424, "PrimaryBlade1"), (3456, "PrimaryBlade2"), (3488, "PrimaryBoom"), (3520, "PrimaryLauncherArm"), (3552, "OtherFixedPositionPartsDefinedasNeeded"), (3584, "LandingGearNose"), (3616, "LandingGearLeftMain"), (3648, "LandingGearRightMain"), (3680, "DoorsofLeftSideWeaponBay"), (3712, "DoorsofRightSideWeaponBay"), (3744, "SpotSearchLight1"), (3776, "SpotSearchLight2"), (3808, "SpotSearchLight3"), (3840, "SpotSearchLight4"), (3872, "LandingLight"), (4096, "PrimaryTurretNumber1"), (4128, "PrimaryTurretNumber2"), (4160, "PrimaryTurretNumber3"), (4192, "PrimaryTurretNumber4"), (4224, "PrimaryTurretNumber5"), (4256, "PrimaryTurretNumber6"), (4288, "PrimaryTurretNumber7"), (4320, "PrimaryTurretNumber8"), (4352, "PrimaryTurretNumber9"), (4384, "PrimaryTurretNumber10"), (4416, "PrimaryGunNumber1"), (4448, "PrimaryGunNumber2"), (4480, "PrimaryGunNumber3"), (4512, "PrimaryGunNumber4"), (4544, "PrimaryGunNumber5"), (4576, "PrimaryGunNumber6"), (4608, "PrimaryGunNumber7"), (4640, "PrimaryGunNumber8"), (4672, "PrimaryGunNumber9"), (4704, "PrimaryGunNumber10"), (4736, "PrimaryLauncher1"), (4768, "PrimaryLauncher2"), (4800, "PrimaryLauncher3"), (4832, "PrimaryLauncher4"), (4864, "PrimaryLauncher5"), (4896, "PrimaryLauncher6"), (4928, "PrimaryLauncher7"), (4960, "PrimaryLauncher8"), (4992, "PrimaryLauncher9"), (5024, "PrimaryLauncher10"), (5056, "PrimaryDefenseSystems1"), (5088, "PrimaryDefenseSystems2"), (5120, "PrimaryDefenseSystems3"), (5152, "PrimaryDefenseSystems4"), (5184, "PrimaryDefenseSystems5"), (5216, "PrimaryDefenseSystems6"), (5248, "PrimaryDefenseSystems7"), (5280, "PrimaryDefenseSystems8"), (5312, "PrimaryDefenseSystems9"), (5344, "PrimaryDefenseSystems10"), (5376, "PrimaryRadar1"), (5408, "PrimaryRadar2"), (5440, "PrimaryRadar3"), (5472, "PrimaryRadar4"), (5504, "PrimaryRadar5"), (5536, "PrimaryRadar6"), (5568, "PrimaryRadar7"), (5600, "PrimaryRadar8"), (5632, "PrimaryRadar9"), (5664, "PrimaryRadar10"), (5696, "SecondaryTurretNumber1"), (5728, "SecondaryTurretNumber2"), (5760, "SecondaryTurretNumber3"), (5792, "SecondaryTurretNumber4"), (5824, "SecondaryTurretNumber5"), (5856, "SecondaryTurretNumber6"), (5888, "SecondaryTurretNumber7"), (5920, "SecondaryTurretNumber8"), (5952, "SecondaryTurretNumber9"), (5984, "SecondaryTurretNumber10"), (6016, "SecondaryGunNumber1"), (6048, "SecondaryGunNumber2"), (6080, "SecondaryGunNumber3"), (6112, "SecondaryGunNumber4"), (6144, "SecondaryGunNumber5"), (6176, "SecondaryGunNumber6"), (6208, "SecondaryGunNumber7"), (6240, "SecondaryGunNumber8"), (6272, "SecondaryGunNumber9"), (6304, "SecondaryGunNumber10"), (6336, "SecondaryLauncher1"), (6368, "SecondaryLauncher2"), (6400, "SecondaryLauncher3"), (6432, "SecondaryLauncher4"), (6464, "SecondaryLauncher5"), (6496, "SecondaryLauncher6"), (6528, "SecondaryLauncher7"), (6560, "SecondaryLauncher8"), (6592, "SecondaryLauncher9"), (6624, "SecondaryLauncher10"), (6656, "SecondaryDefenseSystems1"), (6688, "SecondaryDefenseSystems2"), (6720, "SecondaryDefenseSystems3"), (6752, "SecondaryDefenseSystems4"), (6784, "SecondaryDefenseSystems5"), (6816, "SecondaryDefenseSystems6"), (6848, "SecondaryDefenseSystems7"), (6880, "SecondaryDefenseSystems8"), (6912, "SecondaryDefenseSystems9"), (6944, "SecondaryDefenseSystems10"), (6976, "SecondaryRadar1"), (7008, "SecondaryRadar2"), (7040, "SecondaryRadar3"), (7072, "SecondaryRadar4"), (7104, "SecondaryRadar5"), (7136, "SecondaryRadar6"), (7168, "SecondaryRadar7"), (7200, "SecondaryRadar8"), (7232, "SecondaryRadar9"), (7264, "SecondaryRadar10"), (7296, "DeckElevator1"), (7328, "DeckElevator2"), (7360, "Catapult1"), (7392, "Catapult2"), (7424, "JetBlastDeflector1"), (7456, "JetBlastDeflector2"), (7488, "ArrestorWires1"), (7520, "ArrestorWires2"), (7552, "ArrestorWires3"), (7584, "WingFold"), (7616, "FuselageFold"), (7648, "MainCargoDoor"), (7680, "CargoRamp"), (7712, "AirtoAirRefuelingBoom"), (7744, "PrimaryAerialRefuelingReceptacleDoor"), (7776, "SecondaryAerialRefuelingReceptacleDoor"), (7808, "AerialRefuelingReceptacleLatch"), (7840, "CargoDoor1"), (7872, "CargoDoor2"), (7904, "CargoDoor3"), (7936, "CargoDoor4"), (7968, "CargoDoor5"), (8000, "CargoDoor6"), (8032, "CargoDoor7"), (8064, "CargoDoor8"), (8096, "CargoDoor9"), (8128, "CargoDoor10"), (8160, "CentreRefuellingDrogue"), (8192, "PortRefuellingDrogue"), (8224, "StarboardRefuellingDrogue"), (8256, "SubmarineEngineExhaustMast"), (8288, "SubmarineMast1"), (8320, "SubmarineMast2"), (8352, "SubmarineMast3"), (8384, "SubmarineMast4"), (8416, "SubmarineMast5"), (8448, "SubmarineMast6"), (8480, "SubmarineMast7"), (8512, "SubmarineMast8"), (8544, "SubmarineMast9"), (8576, "SubmarineMast10"), (8608, "VectoredThrustNozzle"), (8640, "LeftDooroftheLeftWeaponBay"), (8672, "RightDooroftheLeftWeaponBay"), (8704, "LeftDooroftheRightWeaponBay"), (8736, "RightDooroftheRightWeaponBay"), (8768, "GunDoor"), (8800, "CountermeasureDoorLeft"), (8832, "CountermeasureDoorRight"), (8864, "HookDoorForward"), (8896, "HookDoorAft"), (8928, "LiftFanUpperDoor"), (8960, "LiftFanLowerDoorLeft"), (8992, "LiftFanLowerDoorRight"), (9024, "RefuelProbeDoor"), (9056, "LeftEngineNacelle"), (9088, "RightEngineNacelle"), (9120, "_1stLeftWheel"), (9152, "_1stRightWheel"), (9184, "_2ndLeftWheel"), (9216, "_2ndRightWheel"), (9248, "_3rdLeftWheel"), (9280, "_3rdRightWheel"), (9312, "_4thLeftWheel"), (9344, "_4thRightWheel"), (9376, "_5thLeftWheel"), (9408, "_5thRightWheel"), (9440, "_6thLeftWheel"), (9472, "_6thRightWheel"), (9504, "_7thLeftWheel"), (9536, "_7thRightWheel"), (9568, "_8thLeftWheel"), (9600, "_8thRightWheel"), (9632, "_9thLeftWheel"), (9664, "_9thRightWheel"), (9696, "_10thLeftWheel"), (9728, "_10thRightWheel"), (9760, "RefuelingProbe"), (9792, "SteeringWheel"), (9824, "CraneBody"), (9856, "CraneArm1"), (9888, "CraneArm2"), (9920, "CraneArm3"), (9952, "CraneBoom"), (9984, "CraneHook"), (10016, "Trailer"), (10048, "RollerLeft"), (10080, "RollerRight"), (10112, "PrimaryGunRecoil"), (10144, "SecondaryGunRecoil")] },
    EnumDef { name: "ArticulatedPartsTypeMetric", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "Position"), (2, "PositionRate"), (3, "Extension"), (4, "ExtensionRate"), (5, "X"), (6, "XRate"), (7, "Y"), (8, "YRate"), (9, "Z"), (10, "ZRate"), (11, "Azimuth"), (12, "AzimuthRate"), (13, "Elevation"), (14, "ElevationRate"), (15, "Rotation1"), (16, "RotationRate")] },
    EnumDef { name: "AttachedPartDetachedIndicator", width: 1, default: 0, values: &[(0, "Attached"), (1, "Detached")] },
    EnumDef { name: "AttachedParts", width: 4, default: 0, values: &[(0, "NothingEmpty"), (1, "SequentialIDsformodelspecificstations"), (512, "FuselageStations"), (640, "LeftwingStations"), (768, "RightwingStations"), (896, "M16A42rifle"), (897, "M249SAW"), (898, "M60Machinegun"), (899, "M203GrenadeLauncher"), (900, "M136AT4"), (901, "M47Dragon"), (902, "AAWSMJavelin"), (903, "M18A1ClaymoreMine"), (904, "MK19GrenadeLauncher"), (905, "M2MachineGun")] },
    EnumDef { name: "AustralianCategoryOverlay", width: 1, default: 11, values: &[(11, "AustralianArmy"), (13, "RoyalAustralianAirForce"), (14, "RoyalAustralianNavy"), (30, "AustralianSpecialOperationsCommand"), (51, "AustralianDepartmentofHomeAffairs"), (52, "AustralianFederalPolice")] },
    EnumDef { name: "BeamStatusBeamState", width: 1, default: 0, values: &[(0, "Active"), (1, "Deactivated")] },
    EnumDef { name: "BuildingPaintScheme", width: 1, default: 0, values: &[(0, "Default")] },
    EnumDef { name: "CCTTSINCGARSClearChannel", width: 1, default: 0, values: &[(0, "Notclearchannel"), (1, "Clearchannel")] },
    EnumDef { name: "CCTTSINCGARSStartofMessage", width: 1, default: 0, values: &[(0, "Notstartofmessage"), (1, "StartofMessage")] },
    EnumDef { name: "CIGIExtensionPacketID", width: 2, default: 4096, values: &[(4096, "ImageCaptureRequestpacketID"), (4097, "ImageCaptureResponsepacketID"), (4098, "StateNotificationRequestPacketID"), (4099, "StateNotificationResponsePacketID"), (5000, "GlobalRefFrameDefPacketID")] },
    EnumDef { name: "CapabilityReport", width: 1, default: 0, values: &[(0, "NoCommunicationsCapability"), (4, "SignifiesatLeastCommAandCommBCapabilityandAbilitytoSetCACode7andontheGround"), (5, "SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andAirborne"), (6, "SignifiesatLeastCommAandCommBcapabilityandAbilitytoSetCACode7andEitherAirborneorontheGround"), (7, "SignifiestheDownlinkRequestFieldEquals234or5andEitherAirborneorontheGround"), (255, "NoStatement")] },
    EnumDef { name: "Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms", width: 1, default: 1, values: &[(1, "Other")] },
    EnumDef { name: "Class11SupplyCategorySupplies", width: 1, default: 1, values: &[(1, "Other"), (2, "Pallets"), (3, "FuelTanksDrumsandBladders"), (4, "Chests"), (5, "Boxes")] },
    EnumDef { name: "Class12SupplyCategorySlingLoads", width: 1, default: 1, values: &[(1, "Other"), (2, "SlingLoadBlivet"), (3, "SlingLoadCrate"), (4, "SlingLoadWaterBucket"), (5, "SlingLoadVehicles"), (6, "SlingLoadHowitzer"), (7, "SlingLoadCollapsible"), (8, "SlingLoadBladder"), (9, "SlingLoadPalletofCrates"), (10, "SlingLoadHelicopters"), (11, "SlingLoadHoist"), (12, "SlingLoadConcreteBlock")] },
    EnumDef { name: "Class1SupplyCategorySubsistence", width: 1, default: 1, values: &[(1, "Other"), (2, "ANonPerishable"), (3, "CCombatRations"), (4, "RRefrigerated"), (5, "SOtherNonRefrigerated"), (6, "WWater")] },
    EnumDef { name: "Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies", width: 1, default: 1, values: &[(1, "Other"), (2, "AAir"), (3, "BGroundSupportMateriel"), (4, "EGeneralSupplies"), (5, "FClothing"), (6, "GElectronics"), (7, "MWeapons"), (8, "TIndustrialSupplies")] },
    EnumDef { name: "Class3SupplyCategoryPetroleumOilsLubricants", width: 1, default: 1, values: &[(1, "Other"), (2, "APOLforAirVehicles"), (3, "WPOLforLandVehicles"), (4, "PPackagedPOL")] },
    EnumDef { name: "Class4SupplyCategoryConstructionMaterials", width: 1, default: 1, values: &[(1, "Other"), (2, "AConstruction"), (3, "BBarrier")] },
    EnumDef { name: "Class6SupplyCategoryPersonnelDemandItems", width: 1, default: 1, values: &[(1, "Other")] },
    EnumDef { name: "Class7SupplyCategoryMajorItems", width: 1, default: 1, values: &[(1, "Other"), (2, "AAir"), (3, "BGroundSupportMateriel"), (4, "DAdminVehicles"), (5, "GElectronics"), (6, "JRacksAdaptorsPylons"), (7, "KTacticalVehicles"), (8, "LMissiles"), (9, "MWeapons"), (10, "NSpecialWeapons"), (11, "XAircraftEngines"), (20, "DropTank"), (21, "ConformalFuelTank"), (22, "LuggagePod"), (23, "ECMPod"), (24, "ParaDrogue"), (25, "TargetingPod"), (26, "Fairing"), (27, "AirRefuellingPod"), (28, "HeavyAirdrop"), (29, "ContainerDeliverySystemAirdrop"), (30, "RocketPodLauncher"), (31, "TacticalPod"), (32, "RECCEpod"), (33, "FLIRpod")] },
    EnumDef { name: "Class8SupplyCategoryMedicalMaterial", width: 1, default: 1, values: &[(1, "Other"), (2, "AMedicalMateriel"), (3, "BBloodFluids")] },
    EnumDef { name: "Class9SupplyCategoryRepairPartsandComponents", width: 1, default: 1, values: &[(1, "Other"), (2, "AAir"), (3, "BGroundSupportMateriel"), (4, "DAdminVehicles"), (5, "GElectronics"), (6, "KTacticalVehicles"), (7, "LMissiles"), (8, "MWeapons"), (9, "NSpecialWeapons"), (10, "XAircraftEngines")] },
    EnumDef { name: "ClothingIRSignature", width: 1, default: 0, values: &[(0, "StandardClothing"), (1, "Camouflage"), (2, "ThermalBlanket"), (3, "Other")] },
    EnumDef { name: "CollisionType", width: 1, default: 0, values: &[(0, "Inelastic"), (1, "Elastic"), (55, "BoomNozzleHasClearedTheReceiversRefuelingReceptacle")] },
    EnumDef { name: "Color", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "WhiteVGA"), (2, "RedVGA"), (3, "YellowVGA"), (4, "LimeVGA"), (5, "CyanVGA"), (6, "BlueVGA"), (7, "MagentaVGA"), (8, "GreyVGA"), (9, "SilverVGA"), (10, "MaroonVGA"), (11, "OliveVGA"), (12, "GreenVGA"), (13, "TealVGA"), (14, "NavyVGA"), (15, "PurpleVGA"), (20, "Black"), (21, "Navy"), (22, "DarkBlue"), (23, "MediumBlue"), (24, "Blue"), (25, "DarkGreen"), (26, "Green"), (27, "Teal"), (28, "DarkCyan"), (29, "DeepSkyBlue"), (30, "DarkTurquoise"), (31, "MediumSpringGreen"), (32, "Lime"), (33, "SpringGreen"), (34, "Cyan"), (35, "MidnightBlue"), (36, "DodgerBlue"), (37, "LightSeaGreen"), (38, "ForestGreen"), (39, "SeaGreen"), (40, "DarkSlateGray"), (41, "LimeGreen"), (42, "MediumSeaGreen"), (43, "Turquoise"), (44, "RoyalBlue"), (45, "SteelBlue"), (46, "DarkSlateBlue"), (47, "MediumTurquoise"), (48, "Indigo"), (49, "DarkOliveGreen"), (50, "CadetBlue"), (51, "CornflowerBlue"), (52, "MediumAquamarine"), (53, "DimGray"), (54, "SlateBlue"), (55, "OliveDrab"), (56, "SlateGray"), (57, "LightSlateGray"), (58, "MediumSlateBlue"), (59, "LawnGreen"), (60, "Chartreuse"), (61, "Aquamarine"), (62, "Maroon"), (63, "Purple"), (64, "Olive"), (65, "Gray"), (66, "Grey"), (67, "SkyBlue"), (68, "LightSkyBlue"), (69, "BlueViolet"), (70, "DarkRed"), (71, "DarkMagenta"), (72, "SaddleBrown"), (73, "DarkSeaGreen"), (74, "LightGreen"), (75, "MediumPurple"), (76, "DarkViolet"), (77, "PaleGreen"), (78, "DarkOrchid"), (79, "YellowGreen"), (80, "Sienna"), (81, "Brown"), (82, "DarkGray"), (83, "LightBlue"), (84, "GreenYellow"), (85, "PaleTurquoise"), (86, "LightSteelBlue"), (87, "PowderBlue"), (88, "FireBrick"), (89, "DarkGoldenRod"), (90, "MediumOrchid"), (91, "RosyBrown"), (92, "DarkKhaki"), (93, "Silver"), (94, "MediumVioletRed"), (95, "IndianRed"), (96, "Peru"), (97, "Chocolate"), (98, "Tan"), (99, "LightGray"), (100, "PaleVioletRed"), (101, "Thistle"), (102, "Orchid"), (103, "GoldenRod"), (104, "Crimson"), (105, "Gainsboro"), (106, "Plum"), (107, "BurlyWood"), (108, "LightCyan"), (109, "Lavender"), (110, "DarkSalmon"), (111, "Violet"), (112, "PaleGoldenRod"), (113, "LightCoral"), (114, "Khaki"), (115, "AliceBlue"), (116, "HoneyDew"), (117, "Azure"), (118, "SandyBrown"), (119, "Wheat"), (120, "Beige"), (121, "WhiteSmoke"), (122, "MintCream"), (123, "GhostWhite"), (124, "Salmon"), (125, "AntiqueWhite"), (126, "Linen"), (127, "LightGoldenRodYellow"), (128, "OldLace"), (129, "Red"), (130, "Fuchsia"), (131, "Magenta"), (132, "DeepPink"), (133, "OrangeRed"), (134, "Tomato"), (135, "HotPink"), (136, "Coral"), (137, "DarkOrange"), (138, "LightSalmon"), (139, "Orange"), (140, "LightPink"), (141, "Pink"), (142, "Gold"), (143, "PeachPuff"), (144, "NavajoWhite"), (145, "Moccasin"), (146, "Bisque"), (147, "MistyRose"), (148, "BlanchedAlmond"), (149, "PapayaWhip"), (150, "LavenderBlush"), (151, "SeaShell"), (152, "Cornsilk"), (153, "LemonChiffon"), (154, "FloralWhite"), (155, "Snow"), (156, "Yellow"), (157, "LightYellow"), (158, "Ivory"), (159, "White")] },
    EnumDef { name: "ComponentDamageStatus", width: 1, default: 0, values: &[(0, "NoDamage"), (1, "MinorDamage"), (2, "MediumDamage"), (3, "MajorDamage"), (4, "Destroyed")] },
    EnumDef { name: "ComponentIdentification", width: 1, default: 0, values: &[(0, "EntityCenter"), (1, "EntityStructure"), (2, "ControlSystem"), (3, "ControlSurface"), (4, "EnginePropulsionSystem"), (5, "CrewMember"), (6, "Fuse"), (7, "AcquisitionSensor"), (8, "TrackingSensor"), (9, "FuelTankSolidRocketMotor")] },
    EnumDef { name: "ComponentVisualDamageStatusSmoke", width: 1, default: 0, values: &[(0, "NoSmoke"), (1, "LightSmoke"), (2, "ModerateSmoke"), (3, "HeavySmoke")] },
    EnumDef { name: "ComponentVisualDamageStatusSurfaceDamage", width: 1, default: 0, values: &[(0, "NormalAppearance"), (1, "LightCharring"), (2, "HeavyCharring"), (3, "OneorMoreHolesBurnedCompletelythroughSurface")] },
    EnumDef { name: "ComponentVisualSmokeColor", width: 1, default: 0, values: &[(0, "NoSmoke"), (1, "White"), (2, "Gray"), (3, "Black")] },
    EnumDef { name: "Country", width: 2, default: 0, values: &[(0, "Other"), (1, "Afghanistan"), (2, "Albania"), (3, "Algeria"), (4, "AmericanSamoa"), (5, "Andorra"), (6, "Angola"), (7, "Anguilla"), (8, "Antarctica"), (9, "AntiguaandBarbuda"), (10, "Argentina"), (11, "Aruba"), (12, "AshmoreandCartierIslands"), (13, "Australia"), (14, "Austria"), (15, "Bahamas"), (16, "Bahrain"), (17, "BakerIsland"), (18, "Bangladesh"), (19, "Barbados"), (20, "BassasdaIndia"), (21, "Belgium"), (22, "Belize"), (23, "Benin"), (24, "Bermuda"), (25, "Bhutan"), (26, "Bolivia"), (27, "Botswana"), (28, "BouvetIsland"), (29, "Brazil"), (30, "BritishIndianOceanTerritory"), (31, "VirginIslandsBritish"), (32, "BruneiDarussalam"), (33, "Bulgaria"), (34, "BurkinaFaso"), (35, "Myanmar"), (36, "Burundi"), (37, "Cambodia"), (38, "Cameroon"), (39, "Canada"), (40, "CaboVerde"), (41, "CaymanIslands"), (42, "CentralAfricanRepublic"), (43, "Chad"), (44, "Chile"), (45, "ChinaPeoplesRepublicof"), (46, "ChristmasIsland"), (47, "Cocos"), (48, "Colombia"), (49, "Comoros"), (50, "Congo"), (51, "CookIslands"), (52, "CoralSeaIslands"), (53, "CostaRica"), (54, "Cuba"), (55, "Cyprus"), (56, "Czechoslovakia"), (57, "Denmark"), (58, "Djibouti"), (59, "Dominica"), (60, "DominicanRepublic"), (61, "Ecuador"), (62, "Egypt"), (63, "ElSalvador"), (64, "EquatorialGuinea"), (65, "Ethiopia"), (66, "EuropaIsland"), (67, "FalklandIslands"), (68, "FaroeIslands"), (69, "Fiji"), (70, "Finland"), (71, "France"), (72, "FrenchGuiana"), (73, "FrenchPolynesia"), (74, "FrenchSouthernTerritories"), (75, "Gabon"), (76, "GambiaThe"), (77, "GazaStrip"), (78, "Germany"), (79, "Ghana"), (80, "Gibraltar"), (81, "GloriosoIslands"), (82, "Greece"), (83, "Greenland"), (84, "Grenada"), (85, "Guadeloupe"), (86, "Guam"), (87, "Guatemala"), (88, "Guernsey"), (89, "Guinea"), (90, "GuineaBissau"), (91, "Guyana"), (92, "Haiti"), (93, "HeardIslandandMcDonaldIslands"), (94, "Honduras"), (95, "HongKong"), (96, "HowlandIsland"), (97, "Hungary"), (98, "Iceland"), (99, "India"), (100, "Indonesia"), (101, "Iran"), (102, "Iraq"), (104, "Ireland"), (105, "Israel"), (106, "Italy"), (107, "CotedIvoire"), (108, "Jamaica"), (109, "JanMayen"), (110, "Japan"), (111, "JarvisIsland"), (112, "Jersey"), (113, "JohnstonAtoll"), (114, "Jordan"), (115, "JuandeNovaIsland"), (116, "Kenya"), (117, "KingmanReef"), (118, "Kiribati"), (119, "KoreaDemocraticPeoplesRepublicOf"), (120, "KoreaRepublicOf"), (121, "Kuwait"), (122, "LaoPeoplesDemocraticRepublic"), (123, "Lebanon"), (124, "Lesotho"), (125, "Liberia"), (126, "Libya"), (127, "Liechtenstein"), (128, "Luxembourg"), (129, "Madagascar"), (130, "Macao"), (131, "Malawi"), (132, "Malaysia"), (133, "Maldives"), (134, "Mali"), (135, "Malta"), (136, "IsleofMan"), (137, "MarshallIslands"), (138, "Martinique"), (139, "Mauritania"), (140, "Mauritius"), (141, "Mayotte"), (142, "Mexico"), (143, "Micronesia"), (144, "Monaco"), (145, "Mongolia"), (146, "Montserrat"), (147, "Morocco"), (148, "Mozambique"), (149, "Namibia"), (150, "Nauru"), (151, "NavassaIsland"), (152, "Nepal"), (153, "Netherlands"), (154, "NetherlandsAntilles"), (155, "NewCaledonia"), (156, "NewZealand"), (157, "Nicaragua"), (158, "Niger"), (159, "Nigeria"), (160, "Niue"), (161, "NorfolkIsland"), (162, "NorthernMarianaIslands"), (163, "Norway"), (164, "Oman"), (165, "Pakistan"), (166, "PalmyraAtoll"), (168, "Panama"), (169, "PapuaNewGuinea"), (170, "ParacelIslands"), (171, "Paraguay"), (172, "Peru"), (173, "Philippines"), (174, "Pitcairn"), (175, "Poland"), (176, "Portugal"), (177, "PuertoRico"), (178, "Qatar"), (179, "Reunion"), (180, "Romania"), (181, "Rwanda"), (182, "SaintKittsandNevis"), (183, "SaintHelenaAscensionandTristandaCunha"), (184, "SaintLucia"), (185, "SaintPierreandMiquelon"), (186, "SaintVincentandtheGrenadines"), (187, "SanMarino"), (188, "SaoTomeandPrincipe"), (189, "SaudiArabia"), (190, "Senegal"), (191, "Seychelles"), (192, "SierraLeone"), (193, "Singapore"), (194, "SolomonIslands"), (195, "Somalia"), (196, "SouthGeorgiaandtheSouthSandwichIslands"), (197, "SouthAfrica"), (198, "Spain"), (199, "SpratlyIslands"), (200, "SriLanka"), (201, "Sudan"), (202, "Suriname"), (203, "Svalbard"), (204, "Eswatini"), (205, "Sweden"), (206, "Switzerland"), (207, "SyrianArabRepublic"), (208, "TaiwanProvinceofChina"), (209, "TanzaniaUnitedRepublicof"), (210, "Thailand"), (211, "Togo"), (212, "Tokelau"), (213, "Tonga"), (214, "TrinidadandTobago"), (215, "TromelinIsland"), (216, "Palau"), (217, "Tunisia"), (218, "Turkey"), (219, "TurksandCaicosIslands"), (220, "Tuvalu"), (221, "Uganda"), (222, "Russia"), (223, "UnitedArabEmirates"), (224, "UnitedKingdomofGreatBritainandNorthernIreland"), (225, "UnitedStatesofAmerica"), (226, "Uruguay"), (227, "Vanuatu"), (228, "HolySee"), (229, "Venezuela"), (230, "VietNam"), (231, "VirginIslandsUS"), (232, "WakeIsland"), (233, "WallisandFutuna"), (234, "WesternSahara"), (235, "WestBank"), (236, "Samoa"), (237, "Yemen"), (240, "SerbiaandMontenegro_"), (241, "Zaire"), (242, "Zambia"), (243, "Zimbabwe"), (244, "Armenia"), (245, "Azerbaijan"), (246, "Belarus"), (247, "BosniaandHerzegovina"), (248, "ClippertonIsland"), (249, "Croatia"), (250, "Estonia"), (251, "Georgia"), (252, "Kazakhstan"), (253, "Kyrgyzstan"), (254, "Latvia"), (255, "Lithuania"), (256, "NorthMacedonia"), (257, "MidwayIslands"), (258, "Moldova"), (259, "Montenegro"), (260, "Russia_"), (261, "SerbiaAndMontenegro__"), (262, "Slovenia"), (263, "Tajikistan"), (264, "Turkmenistan"), (265, "Ukraine"), (266, "Uzbekistan"), (267, "CzechRepublic"), (268, "Slovakia"), (269, "AalandIslands"), (270, "BonaireSintEustatiusandSaba"), (271, "CongoDemocraticRepublicOfThe"), (272, "Curacao"), (273, "Eritrea"), (274, "SaintBarthelemy"), (275, "SaintMartin"), (276, "Serbia"), (277, "SintMaarten"), (278, "SouthSudan"), (279, "SvalbardandJanMayen"), (280, "TimorLeste"), (281, "UnitedStatesMinorOutlyingIslands"), (282, "PalestineStateof")] },
    EnumDef { name: "CoupledExtensionIndicator", width: 1, default: 0, values: &[(0, "NotCoupled"), (1, "Coupled")] },
    EnumDef { name: "CoverShroudStatus", width: 1, default: 0, values: &[(0, "Closed"), (1, "Opening"), (2, "CoverShroudBlownDetached"), (3, "OpenAttached")] },
    EnumDef { name: "CryptoKeyIDCryptoMode", width: 1, default: 0, values: &[(0, "Baseband"), (1, "Diphase")] },
    EnumDef { name: "DEFireFlagsStateUpdateFlag", width: 1, default: 0, values: &[(0, "UpdateDuetoHeartbeatTimer"), (1, "StateChange")] },
    EnumDef { name: "DEFirePulseShape", width: 1, default: 0, values: &[(0, "Other"), (1, "SquareWave"), (2, "ContinuousWave"), (3, "Gaussian")] },
    EnumDef { name: "DEPrecisionAimpointBeamSpotType", width: 1, default: 0, values: &[(0, "Other"), (1, "Gaussian"), (2, "TopHat")] },
    EnumDef { name: "DISAttributeActionCode", width: 1, default: 0, values: &[(0, "NoStatement")] },
    EnumDef { name: "DISLiveEntitySubprotocolNumber", width: 1, default: 0, values: &[(0, "NoSubprotocol")] },
    EnumDef { name: "DRParametersType", width: 1, default: 0, values: &[(0, "None"), (1, "LocalEulerAngles"), (2, "WorldOrientationQuaternion")] },
    EnumDef { name: "DamageArea", width: 1, default: 0, values: &[(0, "DamageArea1orNotApplicableifDamageAreasarenotdefined_"), (1, "DamageArea2"), (2, "DamageArea3"), (3, "DamageArea4"), (4, "DamageArea5"), (5, "DamageArea6"), (6, "DamageArea7"), (7, "DamageArea8")] },
    EnumDef { name: "DataCategory", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "FunctionalData"), (2, "TransponderInterrogatorDataLinkMessages")] },
    EnumDef { name: "DeadReckoningAlgorithm", width: 1, default: 0, values: &[(0, "Other"), (1, "StaticNonmovingEntity"), (2, "DRMConstantVelocityLowAccelerationLinearMotionEntity"), (3, "DRMConstantVelocityLowAccelerationLinearMotionEntitywithExtrapolationofOrientation"), (4, "DRMHighSpeedorManeuveringEntitywithExtrapolationofOrientation"), (5, "DRMHighSpeedorManeuveringEntity"), (6, "DRMSimilartoFPWexceptinBodyCoordinates"), (7, "DRMSimilartoRPWexceptinBodyCoordinates"), (8, "DRMSimilartoRVWexceptinBodyCoordinates"), (9, "DRMSimilartoFVWexceptinBodyCoordinates")] },
    EnumDef { name: "DeltaMode5SAltitudePositiveNegativeIndicator", width: 1, default: 0, values: &[(0, "Positive"), (1, "Negative")] },
    EnumDef { name: "DesignatorCode", width: 2, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "DesignatorSystemName", width: 2, default: 0, values: &[(0, "NotSpecified"), (1000, "ANAAQ4"), (1100, "ANAAQ7"), (1200, "ANAAQ8"), (1300, "ANAAQ14LANTIRN"), (1400, "ANAAQ19"), (1500, "ANAAQ22ASAFIRE"), (1600, "ANAAQ22BSAFIRELP"), (1700, "ANAAQ22CStarSAFIREI"), (1800, "ANAAQ22DBRITEStar"), (1900, "ANAAQ24DIRCMNemesis"), (2000, "ANAAQ25LTS"), (2100, "ANAAQ28LITENINGII"), (2200, "ANAAQ30"), (2300, "ANAAQ32"), (2400, "ANAAQ33Sniper"), (2500, "ANAAQ37"), (2600, "ANAAQ38"), (2650, "ANAAQ40"), (2700, "ANAAS32"), (2800, "ANAAS35V"), (2900, "ANAAS37"), (3000, "ANAAS38"), (3100, "ANAAS44"), (3200, "ANAAS46"), (3300, "ANAAS49"), (3400, "ANAAS51"), (3500, "ANAAS52MTSA"), (3600, "ANALQ10"), (3700, "ANASQ228"), (4400, "ANAVQ25"), (4500, "ANAVQ26"), (4600, "ANGVS5"), (4700, "ANPED1LLDR"), (4800, "TADSLRFD"), (4900, "MMSLRFD"), (5000, "AH1CNITE"), (5100, "MATES"), (5200, "TCV115"), (5300, "TIM"), (5400, "TMS303"), (5500, "TMY303"), (5600, "ALRAD"), (5700, "RFTDL"), (5800, "VVLR"), (6000, "P0705HELL"), (6100, "P0708PULSE"), (6200, "HELD"), (6300, "TYPE105"), (6400, "TYPE118"), (6500, "TYPE121"), (6600, "TYPE126"), (6700, "TYPE629"), (6800, "CLDS"), (6900, "TAV38"), (7000, "TMV630"), (7100, "ALTM1020"), (7200, "ALATS"), (7300, "DarkStarLAMPS"), (7400, "GLTDII"), (7500, "MBTELRF"), (7600, "MarkVII"), (7700, "SIREV"), (7800, "ANAAQ16B"), (7900, "ANAAQ16DAESOP"), (8000, "ANAAQ21StarSAFIREIII"), (8100, "ANAAQ22EBRITEStar"), (8200, "ANAAQ36StarSAFIREII"), (8300, "ANAAS38ANiteHawk"), (8400, "ANAAS38BNiteHawk"), (8500, "ANAAS44C"), (8600, "ANAAS53CSP"), (8700, "ANASQ28ATFLIR"), (8800, "ANDAS1MTSB"), (8900, "ANPAQ1LTD"), (9000, "ANPAQ3MULE"), (9090, "ANPEQ1SOFLAM"), (9100, "ANPEQ3"), (9140, "ANPEQ15ATPIAL"), (9150, "ANPEQ18IZLID1000P"), (9200, "ANTVQ2GVLLD"), (9300, "ANZSQ21EOS"), (9400, "ANZSQ22EOS"), (9500, "CIRCM"), (9600, "Guardian"), (9700, "IZLID200P"), (9800, "IZLID1000PW"), (9900, "MMS"), (10000, "MTADSPNVSArrowhead"), (10100, "RBS70"), (10200, "RBS90"), (10300, "TADSPNVS"), (10400, "COLIBRI"), (10500, "Damocles"), (10600, "I251Shkval"), (10700, "KPS53AVEOTS"), (10800, "StarSAFIRE380"), (10900, "JANUSTEOS"), (11000, "LOTHAREOS"), (11100, "MK46MOD1EOS"), (11200, "MTK201MEEOS"), (11300, "ThalesMiradorMk2EOS"), (11400, "TPN1M4923EOS")] },
    EnumDef { name: "DetonationResult", width: 1, default: 0, values: &[(0, "Other"), (1, "EntityImpact"), (2, "EntityProximateDetonation"), (3, "GroundImpact"), (4, "GroundProximateDetonation"), (5, "Detonation"), (6, "NoneorNoDetonation"), (7, "HEhitsmall"), (8, "HEhitmedium"), (9, "HEhitlarge"), (10, "Armorpiercinghit"), (11, "Dirtblastsmall"), (12, "Dirtblastmedium"), (13, "Dirtblastlarge"), (14, "Waterblastsmall"), (15, "Waterblastmedium"), (16, "Waterblastlarge"), (17, "Airhit"), (18, "Buildinghitsmall"), (19, "Buildinghitmedium"), (20, "Buildinghitlarge"), (21, "Mineclearinglinecharge"), (22, "Environmentobjectimpact"), (23, "Environmentobjectproximatedetonation"), (24, "WaterImpact"), (25, "AirBurst"), (26, "Killwithfragmenttype1"), (27, "Killwithfragmenttype2"), (28, "Killwithfragmenttype3"), (29, "Killwithfragmenttype1afterflyoutfailure"), (30, "Killwithfragmenttype2afterflyoutfailure"), (31, "Missduetoflyoutfailure"), (32, "Missduetoendgamefailure"), (33, "Missduetoflyoutandendgamefailure")] },
    EnumDef { name: "DetonationTypeIndicator", width: 1, default: 0, values: &[(0, "Munition"), (1, "Expendable"), (2, "NonMunitionExplosion")] },
    EnumDef { name: "EEAttributeStateIndicator", width: 1, default: 0, values: &[(0, "HeartbeatUpdate"), (1, "ChangedData"), (2, "HasCeased")] },
    EnumDef { name: "ElectromagneticEmissionBeamFunction", width: 1, default: 0, values: &[(0, "Other"), (1, "Search"), (2, "HeightFinding"), (3, "Acquisition"), (4, "Tracking"), (5, "Acquisitionandtracking"), (6, "Commandguidance"), (7, "Illumination"), (8, "Ranging"), (9, "Missilebeacon"), (10, "MissileFusing"), (11, "Activeradarmissileseeker"), (12, "Jamming"), (13, "IFF"), (14, "NavigationWeather"), (15, "Meteorological"), (16, "Datatransmission"), (17, "Navigationaldirectionalbeacon"), (20, "TimeSharedSearch"), (21, "TimeSharedAcquisition"), (22, "TimeSharedTrack"), (23, "TimeSharedCommandGuidance"), (24, "TimeSharedIllumination"), (25, "TimeSharedJamming")] },
    EnumDef { name: "ElectromagneticEmissionStateUpdateIndicator", width: 1, default: 0, values: &[(0, "HeartbeatUpdate"), (1, "ChangedDataUpdate")] },
    EnumDef { name: "EmitterName", width: 2, default: 2, values: &[(2, "_12456X"), (3, "_1L117"), (4, "_1L121E"), (5, "_1L250"), (6, "_1L220U"), (7, "_1L1221E"), (9, "_1RL257"), (10, "_1RL138"), (11, "_1RL257Jammer"), (12, "_5N20"), (13, "_5H62B"), (14, "_5P10"), (15, "_5P10E"), (16, "_5P1001"), (17, "_5P1001E"), (18, "_5P1002"), (19, "_5P1002E"), (20, "_5P1003"), (21, "_5P1003E"), (22, "_5P10EMOD"), (25, "_621A3"), (40, "_860F1AL101"), (42, "_9B1103M2"), (45, "_1226DECCAMIL"), (46, "_9B1348"), (47, "_3KM6"), (48, "_9KR400"), (49, "_50N6A"), (50, "_55G61"), (55, "_59N6"), (57, "_5N69"), (60, "_67N6"), (63, "_76T6"), (64, "_77T6ABM"), (65, "_80K6"), (66, "_91N6A"), (70, "_96L6E"), (75, "_96L6TsP"), (76, "_9C18M3"), (77, "_9C36M"), (80, "_9GR400"), (81, "_9GR400A"), (90, "_9GR600"), (91, "_9GR606"), (125, "_9LV100"), (135, "_9LV200TA"), (180, "_9LV200TV"), (181, "_9LV200TT"), (183, "_9LV200MKIII"), (185, "_9LV326"), (190, "_9M96E2Seeker"), (195, "_9S15M2"), (196, "_9S19M2"), (197, "_9S19ME"), (198, "_9S32M"), (199, "_9S32ME"), (200, "_9S36E"), (215, "_9S112"), (225, "A310Z"), (270, "A325A"), (315, "A346Z"), (360, "A353B"), (405, "A372A"), (450, "A372B"), (495, "A372C"), (540, "A377A"), (585, "A377B"), (630, "A380Z"), (675, "A381Z"), (720, "A398Z"), (765, "A403Z"), (810, "A409A"), (855, "A418A"), (900, "A419Z"), (945, "A429Z"), (990, "A432Z"), (1035, "A434Z"), (1070, "AA6CAcrid"), (1073, "AA7CApex"), (1080, "A401A"), (1081, "AA10A"), (1082, "AA10CAlamoC"), (1085, "AA13ArrowSeeker"), (1090, "AAM4BMH"), (1094, "AA300"), (1095, "AA12Seeker"), (1096, "AD4A"), (1097, "ADES"), (1098, "ADS4LRSR"), (1099, "ACR430"), (1100, "Agave"), (1101, "ACSOPRIE"), (1102, "ABD2000"), (1110, "ADACMK1"), (1111, "ADACMK2"), (1113, "ADAR"), (1115, "ADOUR"), (1117, "AGAT9B1348"), (1118, "AdrosKT01AV"), (1120, "Agat9E420"), (1122, "AGM158JASSMSAR"), (1123, "AGM88HARMMMW"), (1125, "AGRION15"), (1130, "AHV7"), (1150, "AHV17"), (1170, "AIMK23"), (1215, "AIDAII"), (1216, "AIM120A"), (1218, "AIM7MSparrow"), (1230, "_1L271"), (1240, "ALA51"), (1260, "AlbatrosMK2"), (1263, "ALT50"), (1264, "ALTAIR"), (1265, "AMAPS717"), (1268, "AMES13MK1"), (1270, "WGU16B"), (1280, "_1L133BoxSpring"), (1282, "_1L133BoxSpringB"), (1288, "AMDR3D"), (1305, "ANASPS502"), (1306, "Anemone"), (1350, "ANRITSUElectricAR30A"), (1395, "AntilopeV"), (1397, "ANAAQ24"), (1398, "ANADM160"), (1400, "AN_ALE50"), (1410, "AN_ALQ76"), (1440, "AN_ALQ99"), (1441, "AN_ALQ99Band4"), (1442, "AN_ALQ99LBT"), (1485, "AN_ALQ100"), (1530, "AN_ALQ101"), (1575, "AN_ALQ119"), (1585, "AN_ALQ122"), (1620, "AN_ALQ126A"), (1621, "AN_ALQ128"), (1622, "AN_ALQ126B"), (1626, "AN_ALQ131"), (1627, "AN_ALQ131BlkII"), (1628, "AN_ALQ135CD"), (1630, "AN_ALQ144A3"), (1632, "AN_ALQ153"), (1633, "AN_ALQ157Jammer"), (1634, "AN_ALQ155"), (1635, "AN_ALQ156"), (1636, "AN_ALQ161A"), (1637, "AN_ALQ161"), (1638, "AN_ALQ162"), (1639, "AN_ALQ164"), (1640, "AN_ALQ165"), (1641, "AN_ALQ187Jammer"), (1642, "AN_ALQ167"), (1643, "AN_ALQ1721"), (1644, "AN_ALQ1722"), (1645, "AN_ALQ1723"), (1646, "AN_ALQ176"), (1647, "AN_ALQ178"), (1648, "AN_ALQ184"), (1649, "AN_ALQ1849"), (1650, "AN_ALQ188"), (1651, "AN_ALQ214"), (1652, "AN_ALR56"), (1653, "AN_ALQ221"), (1654, "AN_ALR69"), (1655, "AN_ALQ211"), (1656, "AN_ALT16A"), (1657, "AN_ALQ173"), (1658, "AN_ALT28"), (1659, "AN_ALR66BJammer"), (1660, "AN_ALT32A"), (1661, "AN_ALQ196"), (1662, "ALQ249NextGenerationJammer"), (1663, "AN_ALQ2401Jammer"), (1664, "AN_ALR66BJammer2"), (1665, "AN_APD10"), (1670, "AN_ALQ213"), (1672, "ALQ214A45Jammer"), (1680, "AN_ALQ218"), (1700, "ANAPG50"), (1710, "ANAPG53"), (1755, "ANAPG59"), (1800, "ANAPG63"), (1805, "ANAPG631"), (1807, "ANAPG632"), (1809, "ANAPG633"), (1845, "ANAPG65"), (1870, "ANAPG66"), (1871, "ANAPG66V"), (1872, "ANAPG66V2"), (1880, "ANAPG67"), (1890, "ANAPG68"), (1895, "ANAPG689"), (1935, "ANAPG70"), (1940, "ANAPG71"), (1945, "ANAPG73"), (1960, "ANAPG77"), (1970, "ANAPG78"), (1971, "ANAPG79"), (1972, "ANAPG80"), (1974, "ANAPG81"), (1975, "ANAPG821"), (1976, "ANAPG83"), (1980, "ANAPG502"), (2025, "ANAPN1"), (2070, "ANAPN22"), (2115, "ANAPN59"), (2160, "ANAPN69"), (2205, "ANAPN81"), (2220, "ANAPN102"), (2250, "ANAPN117"), (2295, "ANAPN118"), (2320, "ANAPN122"), (2340, "ANAPN130"), (2385, "ANAPN131"), (2430, "ANAPN133"), (2475, "ANAPN134"), (2476, "ANAPN141"), (2520, "ANAPN147"), (2565, "ANAPN150"), (2610, "ANAPN153"), (2655, "ANAPN154"), (2700, "ANAPN155"), (2745, "ANAPN159"), (2746, "ANAPN177"), (2747, "ANAPN179"), (2748, "ANAPN169"), (2790, "ANAPN182"), (2835, "ANAPN187"), (2880, "ANAPN190"), (2925, "ANAPN194"), (2970, "ANAPN195"), (3015, "ANAPN198"), (3060, "ANAPN200"), (3105, "ANAPN202"), (3106, "ANAPN215"), (3120, "ANAPN209"), (3121, "ANAPN209D"), (3122, "ANAPN209A"), (3148, "ANAPN215_2"), (3150, "ANAPN217"), (3152, "ANAPN218"), (3153, "ANAPN224"), (3154, "ANAPN227"), (3155, "ANAPN230"), (3156, "ANAPN232"), (3157, "ANAPN237A"), (3158, "ANAPN234"), (3159, "ANAPN235"), (3160, "ANAPN238"), (3161, "ANAPN222"), (3162, "ANAPN239"), (3164, "ANAPN241"), (3166, "ANAPN242"), (3170, "ANAPN243"), (3195, "ANAPN506"), (3240, "ANAPQ72"), (3285, "ANAPQ99"), (3330, "ANAPQ100"), (3375, "ANAPQ102"), (3376, "ANAPQ107"), (3420, "ANAPQ109"), (3465, "ANAPQ113"), (3510, "ANAPQ120"), (3512, "ANAPQ122"), (3555, "ANAPQ126"), (3600, "ANAPQ128"), (3645, "ANAPQ129"), (3690, "ANAPQ148"), (3700, "ANAPQ150A"), (3735, "ANAPQ153"), (3770, "ANAPQ155"), (3780, "ANAPQ159"), (3785, "ANAPQ164"), (3788, "ANAPQ166"), (3790, "ANAPQ170"), (3791, "ANAPQ174"), (3794, "ANAPQ180"), (3795, "ANAPQ181"), (3800, "ANAPQ186"), (3810, "ANAPS15J"), (3813, "ANAPS162"), (3820, "ANAPS31"), (3825, "ANAPS42"), (3870, "ANAPS80"), (3915, "ANAPS88"), (3916, "ANAPS88A"), (3920, "ANAPS94"), (3922, "ANAPS96"), (3958, "ANAPS113"), (3960, "ANAPS115"), (4005, "ANAPS116"), (4050, "ANAPS120"), (4095, "ANAPS121"), (4140, "ANAPS124"), (4185, "ANAPS125"), (4190, "ANAPS127"), (4230, "ANAPS128"), (4275, "ANAPS130"), (4320, "ANAPS133"), (4365, "ANAPS134"), (4410, "ANAPS137"), (4413, "ANAPS1375"), (4415, "ANAPS137B"), (4420, "ANAPS137B5"), (4425, "ANAPS137D5Elta"), (4455, "ANAPS138"), (4460, "ANAPS139"), (4464, "ANAPS143"), (4465, "ANAPS1431"), (4466, "ANAPS143B"), (4467, "ANAPS1433"), (4468, "ANAPS143B3"), (4475, "ANAPS153"), (4476, "ANAPS154"), (4480, "ANAPS150"), (4482, "ANAPS145"), (4485, "ANAPS147"), (4486, "ANAPS149"), (4489, "ANAPS503"), (4490, "ANAPS504"), (4491, "ANAPS705"), (4500, "ANAPW22"), (4545, "ANAPW23"), (4590, "ANAPX6"), (4635, "ANAPX7"), (4680, "ANAPX39"), (4681, "ANAPX64"), (4725, "ANAPX72"), (4770, "ANAPX76"), (4815, "ANAPX78"), (4816, "ANAPX100"), (4860, "ANAPX101"), (4870, "ANAPX113AIFF"), (4900, "ANAPY1"), (4905, "ANAPY2"), (4950, "ANAPY3"), (4952, "ANAPY7"), (4953, "ANAPY8"), (4954, "ANAPY9"), (4955, "ANAPY10"), (4995, "ANARN21"), (5040, "ANARN52"), (5085, "ANARN84"), (5130, "ANARN118"), (5131, "ANARN153V"), (5165, "ANARN153"), (5175, "ANARW73"), (5220, "ANASB1"), (5265, "ANASG21"), (5266, "ANASN137"), (5270, "ANASN128"), (5280, "ANASQ108"), (5285, "ANASQ239"), (5290, "ANAST502"), (5300, "ANAVQ55"), (5310, "ANAWG9"), (5320, "ANBRN1"), (5325, "ANBPS5"), (5355, "ANBPS9"), (5400, "ANBPS15"), (5401, "ANBPS15H"), (5402, "ANBPS15J"), (5405, "ANBPS16"), (5406, "ANBPS162"), (5410, "ANCPN4"), (5415, "ANCPN18"), (5420, "ANCRM30"), (5430, "ANDPW23"), (5445, "ANDSQ26PhoenixMH"), (5490, "ANDSQ28HarpoonMH"), (5491, "ANFPN1"), (5493, "ANFPN28"), (5494, "ANFPN33"), (5495, "ANFPN40"), (5500, "ANFPN62"), (5502, "ANFPN66"), (5503, "ANFPS8"), (5504, "ANFPN67"), (5505, "ANFPS16"), (5506, "ANFPS5"), (5507, "ANFPS18"), (5508, "ANFPS89"), (5509, "ANFPS49"), (5510, "ANFPS117"), (5511, "ANFPS85"), (5512, "ANFPS88"), (5513, "ANFPS113"), (5514, "ANFPS115"), (5515, "ANFPS20R"), (5516, "ANFPS132"), (5520, "ANFPS77"), (5521, "ANFPS41"), (5522, "ANFPS100A"), (5525, "ANFPS103"), (5526, "ANFPS108"), (5527, "ANGPN12"), (5528, "ANFPS124"), (5529, "ANFPS129"), (5530, "ANGPX6"), (5535, "ANGPX8"), (5537, "ANGRN12"), (5538, "ANMPN14K"), (5539, "ANMPN14"), (5540, "ANMPQ10"), (5541, "ANMPN17"), (5545, "ANMPQ3339465761ILL"), (5550, "ANMPQ34485562TA"), (5551, "ANMPQ49"), (5555, "ANMPQ3550TA"), (5556, "ANMPQ50C"), (5560, "ANMPQ3751TT"), (5565, "ANMPQ43"), (5567, "ANMPQ50"), (5570, "ANMPQ53"), (5571, "ANMPQ63"), (5575, "ANMPQ64"), (5576, "ANSLQ32"), (5577, "ANMPQ65"), (5578, "ANSLQ324"), (5579, "ANSLQ32A"), (5580, "ANSPG34"), (5582, "ANMSQ104"), (5583, "ANMPS36"), (5584, "ANSLQ503"), (5620, "ANSPG48MK25MOD3"), (5625, "ANSPG50"), (5670, "ANSPG51"), (5690, "ANPPQ2"), (5700, "ANPPS15"), (5705, "ANPPS5"), (5710, "ANPPS5D"), (5715, "ANSPG51CWITI"), (5760, "ANSPG51FC"), (5761, "ANSPG51CD"), (5805, "ANSPG52"), (5850, "ANSPG53"), (5895, "ANSPG55B"), (5940, "ANSPG60"), (5985, "ANSPG62"), (5995, "ANSPG503"), (6015, "ANSPN4"), (6025, "ANSPN11"), (6030, "ANSPN35"), (6050, "ANSPN41"), (6075, "ANSPN43"), (6076, "ANSPN43A"), (6078, "ANSPN43C"), (6085, "ANSPN46"), (6120, "ANSPQ2"), (6155, "ANSPQ5A"), (6165, "ANSPQ9A"), (6166, "ANSPQ9B"), (6190, "ANSPQ34"), (6210, "ANSPS4"), (6255, "ANSPS5"), (6300, "ANSPS5C"), (6345, "ANSPS6"), (6390, "ANSPS10"), (6435, "ANSPS21"), (6480, "ANSPS28"), (6525, "ANSPS37"), (6570, "ANSPS39A"), (6615, "ANSPS40"), (6660, "ANSPS41"), (6705, "ANSPS48"), (6750, "ANSPS48C"), (6752, "ANSPS48E"), (6795, "ANSPS49"), (6796, "ANSPS491"), (6797, "ANSPS492"), (6798, "ANSPS493"), (6799, "ANSPS494"), (6800, "ANSPS495"), (6801, "ANSPS496"), (6802, "ANSPS497"), (6803, "ANSPS498"), (6804, "ANSPS49A1"), (6840, "ANSPS52"), (6885, "ANSPS53"), (6930, "ANSPS55"), (6945, "ANSPS52C"), (6970, "ANSPS55CS"), (6975, "ANSPS55SS"), (7020, "ANSPS58"), (7025, "ANSPS58C"), (7065, "ANSPS59"), (7110, "ANSPS64"), (7119, "ANSPS649"), (7120, "SPS6412"), (7155, "ANSPS65"), (7175, "ANSPS66"), (7200, "ANSPS67"), (7201, "ANSPS73_1"), (7210, "ANSPS69"), (7215, "ANSPS73_2"), (7216, "ANSPS74"), (7225, "ANSPS88"), (7226, "ANSPS501"), (7230, "ANSPS505"), (7245, "ANSPY1"), (7250, "ANSPY1A"), (7252, "ANSPY1B_1"), (7253, "ANSPY1B_2"), (7260, "ANSPY1D_1"), (7261, "ANSPY1D_2"), (7265, "ANSPY1F"), (7266, "ANSPY3"), (7267, "ANTPN12"), (7268, "ANSPY4"), (7269, "ANTLQ32ARMDecoy"), (7270, "ANTPN17"), (7271, "ANTPN8"), (7272, "ANTPN22"), (7273, "ANTLQ17A"), (7274, "ANTMS1"), (7275, "ANTPN24"), (7276, "ANTPN25"), (7277, "ANTMS2"), (7278, "ANTPN19"), (7279, "ANTPN31"), (7280, "ANTPQ18"), (7281, "ANSPY6"), (7295, "ANTPQ36"), (7300, "ANTPQ37"), (7301, "ANTPQ38"), (7302, "ANTPQ39"), (7303, "ANTPQ47"), (7305, "ANTPS43"), (7310, "ANTPS43E"), (7311, "ANTPQ48"), (7312, "ANTPQ49"), (7313, "ANTPQ46A"), (7314, "ANTPS34"), (7315, "ANTPS59"), (7316, "ANTPS44"), (7317, "ANTPQ50"), (7320, "ANTPS63"), (7321, "ANTPS65"), (7322, "ANTPS701"), (7323, "ANTPS63SS"), (7324, "ANTPS73"), (7325, "ANTPS75"), (7326, "ANTPS77"), (7327, "ANTPS78"), (7328, "ANTPS79"), (7329, "ANTPS703"), (7330, "ANTPX467"), (7331, "ANTPS80"), (7333, "ANTPY2"), (7334, "ANTSQ288"), (7335, "ANULQ6A"), (7340, "ANULQ19"), (7345, "ANULQ21"), (7380, "ANUPN25"), (7425, "ANUPS1"), (7426, "ANUPS2"), (7427, "ANUPS3"), (7470, "ANUPX1"), (7515, "ANUPX5"), (7560, "ANUPX11"), (7605, "ANUPX12"), (7650, "ANUPX17"), (7695, "ANUPX23"), (7700, "ANUSQ1133"), (7740, "ANVPS2"), (7750, "ANPLM3"), (7751, "ANPLM3A"), (7752, "ANPLM4"), (7753, "ANZPY1"), (7754, "ANZPY2MPRTIP"), (7755, "ANZPY3"), (7760, "ANZPY8"), (7761, "AORL1AS"), (7762, "AORL85KTKMTA"), (7765, "APAR"), (7770, "Aparna"), (7780, "APECSII"), (7785, "ApelcoAD77"), (7830, "APG71"), (7875, "APN148"), (7920, "APN227"), (7965, "APQ113"), (8010, "APQ120"), (8055, "APQ148"), (8100, "APS504V3"), (8102, "AQUITAINEII"), (8103, "AR1"), (8105, "AR3D"), (8112, "PlesseyAR5"), (8113, "AR15"), (8114, "AR152"), (8115, "AR320"), (8118, "AR325"), (8120, "AR327"), (8121, "Arbalet52"), (8122, "ARBB31"), (8123, "ARBB33"), (8126, "ARIES"), (8127, "AriesNav"), (8128, "AriesCS"), (8134, "ARGS14E"), (8135, "ARGS31"), (8140, "ARGUS"), (8145, "ARM31"), (8150, "ARECIBO"), (8160, "ARED"), (8190, "ARI5954"), (8235, "ARI5955"), (8280, "ARI5979"), (8281, "ARGSN31"), (8282, "ARGOS10"), (8283, "ARGOS800"), (8284, "ARI5983"), (8285, "ARI5991"), (8290, "ARI5995"), (8325, "ARINC564BNDXKINGRDR1E"), (8370, "ARINC700BNDXKINGRDR1E"), (8375, "ARK1"), (8378, "ARLMMTI"), (8379, "ARMOR"), (8380, "ARSR3"), (8381, "ARS400"), (8382, "ARSR1"), (8384, "ARSR4"), (8390, "ARSR18"), (8395, "ARTHUR"), (8400, "ARTHURMODB"), (8405, "ARTHURMODC"), (8410, "ARTISAN3D"), (8415, "AS2Kipper"), (8460, "AS2KipperMH"), (8470, "AS3YJ83KmmWMH"), (8480, "AS_34KormoranSeeker"), (8505, "AS4Kitchen"), (8550, "AS4KitchenMH"), (8595, "AS5KeltMH"), (8640, "AS6KingfishMH"), (8685, "AS7Kerry"), (8730, "AS7KerryMG"), (8735, "AS15KENTaltimeter"), (8736, "AS17AKryptonSeeker"), (8737, "AS17BKryptonSeeker"), (8750, "AS901"), (8751, "AS901A"), (8755, "ASARS2"), (8756, "ASDEKDD"), (8757, "ASLESHA"), (8758, "ASMGCS"), (8759, "ASMI18X"), (8760, "AspideAAMSAMILL"), (8761, "ASMI3"), (8762, "AselsanMAR"), (8771, "ASR2000"), (8772, "ASR4"), (8773, "ASR4D"), (8775, "ASRO"), (8776, "ASR12_1"), (8778, "ASR22AL"), (8779, "ASR3"), (8780, "ASR5"), (8782, "ASR7"), (8785, "ASR8"), (8790, "ASR9"), (8791, "ASR9000"), (8792, "ASTI"), (8793, "ASR11DASR"), (8795, "ASR12_2"), (8812, "RaytheonASR10SS"), (8816, "ASR23SS"), (8818, "Arabel"), (8819, "ASTRE"), (8820, "AT2SwatterMG"), (8824, "_9K114ShturmMG"), (8825, "ASTOR"), (8826, "ASTRARCI"), (8830, "ATCR22"), (8831, "ATCR22M"), (8832, "ATCR2T"), (8840, "ATCR33"), (8845, "ATCR33KM"), (8846, "ATCR33S"), (8847, "ATCR3T"), (8848, "ATCR44"), (8849, "ATCR44K"), (8850, "Argos73"), (8851, "ATCR44MS"), (8852, "ATCR4T"), (8865, "AtlasElektronkTRSN"), (8866, "ATLAS8600X"), (8867, "Atlas9600M"), (8868, "ATLAS9600X"), (8869, "ATLAS9600S"), (8870, "ATLAS9740VTS"), (8871, "ATLASS"), (8880, "ATR500C"), (8910, "AVG65"), (8955, "AVH7"), (8980, "AVIACM"), (8985, "AVIAD"), (8990, "Aviaconversia"), (8993, "AviaconversiaII"), (8995, "AviaconversiaIII"), (9000, "AVQ20"), (9005, "AVQ21"), (9045, "AVQ30X"), (9075, "AVQ50"), (9090, "AVQ70"), (9135, "AWS5"), (9180, "AWS6"), (9185, "AWS6B300"), (9200, "B597Z"), (9205, "B636Z"), (9215, "BackBoard"), (9225, "BackNetAB"), (9270, "BackTrap"), (9280, "BAESystemsRT1805APN"), (9281, "BAESDASS2000Jammer"), (9285, "BalanceBeam"), (9300, "BALTIKAB"), (9310, "BALTYK"), (9315, "BallEnd"), (9360, "BallGun"), (9370, "BALLPOINT"), (9405, "BandStand"), (9406, "BandStand3"), (9450, "P3537"), (9475, "BARAX"), (9485, "BASIR110D"), (9495, "BassTilt"), (9505, "Badger"), (9510, "BarracudaJammer"), (9530, "BaykalCountermeasuresSuite"), (9540, "Beacon"), (9585, "BeanSticks"), (9630, "BeeHind"), (9638, "BellNipJammer"), (9639, "BellPushJammer"), (9640, "BellCrownA"), (9642, "BellCrownB"), (9643, "BellSquat"), (9645, "BIGBACK"), (9659, "BigBirdABC"), (9660, "BigBirdD"), (9661, "BigBirdDMod"), (9662, "BigBirdE91N6E"), (9675, "BigBulge"), (9720, "BigBulgeA"), (9765, "BigBulgeB"), (9775, "BIGEYE"), (9780, "SNAR10"), (9781, "BIGHEADB"), (9810, "BigMesh"), (9855, "BigNet"), (9885, "_9S15MT"), (9900, "BillFold"), (9903, "BLIGHTER400"), (9905, "BlowpipeMG"), (9920, "BLR"), (9930, "BlueFox"), (9933, "BlueKestrel"), (9935, "BlueVixen"), (9945, "BlueSilk"), (9990, "BlueParrot"), (10035, "BlueOrchid"), (10057, "BMDJG8715"), (10080, "BoatSail"), (10090, "BORA550"), (10125, "BoforsElectronic9LV331"), (10170, "BoforsEricssonSeaGiraffe50HC"), (10215, "BowlMesh"), (10260, "BoxBrick"), (10305, "BoxTrail"), (10308, "BMKG300GJammingPod"), (10310, "BMKG600JammingPod"), (10312, "BMKG800JammingPod"), (10315, "BMKG860186058606"), (10350, "BPS11A"), (10395, "BPS14"), (10440, "BPS15A"), (10450, "BR3440CAX57"), (10485, "BR15TokyoKEIKI"), (10500, "BrahMos"), (10510, "BridgeMaster"), (10511, "BridgeMasterEEPA"), (10512, "BridgeMasterEATAandARPA"), (10513, "BridgeMasterEnaval"), (10520, "BrimstonemmWMH"), (10530, "BreadBin"), (10540, "Asr"), (10575, "BT271"), (10595, "BU304"), (10620, "BX732"), (10630, "BUKMB"), (10642, "BuranD"), (10650, "BUREVISNYK1"), (10665, "BuzzStand"), (10710, "C5AMultiModeRadar"), (10711, "C802AL"), (10740, "CAESAR"), (10755, "Caiman"), (10800, "CakeStand"), (10845, "CalypsoC61"), (10846, "CalypsoC63"), (10890, "CalypsoIi"), (10891, "CalypsoIII"), (10892, "CalypsoIV"), (10895, "CardionCoastal"), (10935, "CastorIi"), (10940, "Castor2JTT"), (10980, "CatHouse"), (10985, "CDR431"), (10987, "CEAFAR"), (10988, "CEAMOUNT"), (10989, "CEAFAR2L"), (10990, "CEROS200"), (10991, "CEROS200CWI"), (10992, "CEATAC"), (10993, "CEAOPS"), (10994, "CerberusIII"), (10995, "CHSSN6"), (10996, "CerberusIV"), (11000, "ChairBlackTT"), (11010, "ChairBlackILL"), (11020, "LEMZ96L6"), (11025, "CheeseBrick"), (11030, "CheeseCake"), (11070, "LeninetzObzorMS"), (11115, "Clamshell"), (11117, "CLC1"), (11118, "CLC2"), (11119, "CLC3"), (11120, "CLR155"), (11123, "COASTWATCHER100"), (11125, "CoastalGiraffe"), (11130, "COBRA"), (11133, "CobraShoe"), (11137, "Colibri"), (11155, "CollinsWXR300"), (11160, "CollinsWXR700X"), (11165, "CollinsTWR850"), (11205, "CollinsDN101"), (11230, "COMET1"), (11235, "CONDORMK2"), (11240, "ConsiliumSelesmarRTM25XIM"), (11250, "ContravesSeaHunterMK4"), (11260, "CornCan"), (11265, "COSMOSKYMED1"), (11270, "CR105RMCA"), (11280, "CREWDuke2"), (11290, "CREWDuke3"), (11295, "CrossBird"), (11340, "CrossDome"), (11385, "CrossLegs"), (11430, "CrossOut"), (11475, "CrossSlot"), (11520, "CrossSword"), (11565, "CrossUp"), (11610, "CrossSwordFC"), (11655, "CrotaleAcquisitionTA"), (11660, "CrotaleNGTA"), (11665, "CrotaleTT"), (11700, "CrotaleMGMissileSystem"), (11715, "CS10TA"), (11725, "CSFVaran"), (11735, "CSSN4MH"), (11745, "CSSC3CCAS1M1M2MH"), (11748, "HY2BMH"), (11790, "CSSC2BHY1AMH"), (11800, "CSSN4Sardine"), (11810, "CSSN8Saccade"), (11825, "CurlStoneB"), (11830, "CWS1"), (11835, "CWS2"), (11840, "CWS3"), (11860, "Cygnus"), (11880, "CylinderHead"), (11902, "Cymbeline"), (11925, "CyranoII"), (11970, "CyranoIV"), (11975, "CyranoIVM"), (12010, "DA0100"), (12015, "DA0500"), (12016, "DA052"), (12018, "DA_08"), (12060, "Dawn"), (12090, "DCR"), (12105, "DeadDuck"), (12110, "DECCA20V909"), (12111, "DECCA20V90S"), (12150, "DECCA45"), (12195, "DECCA50"), (12196, "DECCA71"), (12197, "Decca72"), (12240, "DECCA110"), (12285, "DECCA170"), (12292, "DECCAHF2"), (12330, "DECCA202"), (12375, "DECCAD202"), (12420, "DECCA303"), (12430, "DECCA535"), (12465, "DECCA626"), (12510, "DECCA629"), (12555, "DECCA914"), (12600, "DECCA916"), (12610, "DECCA926"), (12615, "DECCA1070A"), (12616, "Decca1008"), (12645, "DECCA1226Commercial"), (12655, "DECCA1290"), (12690, "DECCA1626"), (12691, "DECCA2070"), (12694, "Decca1630"), (12735, "DECCA2459"), (12780, "DECCAAWS1"), (12782, "DECCAAWS2"), (12785, "DECCAAWS4"), (12787, "DECCAAWS42"), (12800, "DECCAMAR"), (12805, "DECCARM326"), (12825, "DECCARM416"), (12850, "DECCARM970BT"), (12870, "DECCARM914"), (12875, "DF21DSeeker"), (12915, "DECCARM1690"), (12916, "DECCA1690"), (12960, "DECCASuper101MK3"), (13005, "DISS1"), (13006, "DISS7"), (13007, "DISS013"), (13015, "DISS15D"), (13020, "DLD100A"), (13050, "RapierTTDN181"), (13055, "Rapier2000TT"), (13095, "DogEar"), (13140, "DogHouse"), (13141, "DM3"), (13142, "DM3B"), (13143, "DM5"), (13185, "Don2"), (13230, "DonAB2Kay"), (13275, "Donets"), (13280, "Doppler90Series"), (13320, "DownBeat"), (13360, "DR582"), (13365, "DRAA2A"), (13410, "DRAA2B"), (13415, "DRAA9A"), (13420, "DRAA11A"), (13450, "DRAC37B"), (13452, "DRAC38"), (13455, "DRAC39"), (13456, "DRAC39A"), (13460, "DRAC43A"), (13465, "DRAC44A"), (13477, "DragonEye"), (13480, "DragonEye2"), (13481, "DragonEye3"), (13485, "DragonEye4"), (13500, "DRBC30B"), (13545, "DRBC31A"), (13546, "DRBC31D"), (13585, "DRBC32"), (13590, "DRBC32A"), (13635, "DRBC32D"), (13680, "DRBC33A"), (13725, "DRBI10"), (13770, "DRBI23"), (13815, "DRBJ11B"), (13860, "DRBN30"), (13905, "DRBN32"), (13915, "DRBN34"), (13950, "DRBR51"), (13994, "DRBV20A"), (13995, "DRBV20B"), (14020, "DRBV21Mars05"), (14040, "DRBV22"), (14041, "DRBV23"), (14085, "DRBV26C"), (14086, "DRBV26D"), (14130, "DRBV30"), (14131, "DRBV31"), (14175, "DRBV50"), (14220, "DRBV51"), (14265, "DRBV51A"), (14310, "DRBV51B"), (14355, "DRBV51C"), (14400, "DropKick"), (14445, "DRUA31"), (14490, "DrumTilt"), (14535, "DrumTiltA"), (14545, "DrumTiltB"), (14560, "DRUN30A"), (14580, "Dumbo"), (14583, "DWSR92"), (14585, "DWSR93S"), (14586, "EAGLE"), (14587, "EAGLEMk1"), (14588, "EAJPJammingPod"), (14590, "EKCOE390"), (14600, "ECR90"), (14601, "ECR90Jammer"), (14625, "EggCupAB"), (14640, "EISCAT"), (14660, "EKCOE120"), (14670, "EKCO190"), (14677, "Ekran1"), (14710, "ELL8222"), (14713, "ELL8240"), (14715, "ELM2001B"), (14725, "ELM2022"), (14726, "ELM2032"), (14727, "ELM2052"), (14728, "ELM2055"), (14730, "ELM2060"), (14735, "ELM2075"), (14736, "ELM2022U3"), (14737, "ELM2080"), (14738, "ELM2080S"), (14739, "ELM2085"), (14740, "ELM2106"), (14741, "ELM2106NG"), (14742, "ELM2125"), (14743, "ELM2129"), (14744, "ELM2150"), (14745, "ELM2083"), (14746, "ELM2084"), (14747, "ELM2160V1"), (14748, "ELM2084MMR"), (14749, "ELM2112"), (14750, "ELM2200"), (14751, "ELM2133"), (14755, "ELM2205"), (14760, "ELM2207"), (14765, "ELM2215"), (14770, "ELM2216V"), (14772, "ELM2216XH"), (14775, "ELM2218S"), (14776, "ELT361"), (14777, "ELM2258"), (14779, "ELT553"), (14780, "ELT558"), (14785, "ELT572"), (14790, "ELT715"), (14800, "EltaELM2022A"), (14805, "ELTAELM2221GMSTGR"), (14806, "ELM2228S3D"), (14807, "ELM2705"), (14808, "ELM2226"), (14809, "ELM2228X"), (14810, "ELTASIS"), (14811, "ELM2238"), (14815, "ELM2248"), (14820, "ELM2288"), (14821, "ELM2311"), (14822, "ELM2026"), (14830, "ELNA4007"), (14831, "ELT318"), (14832, "ELW2085"), (14833, "ELT521"), (14835, "ELW2090"), (14845, "EnhancedMeteorDetectionRadarEMDR"), (14850, "EMD2900"), (14851, "EMPAR"), (14895, "EndTray"), (14896, "EQ36"), (14897, "EricssonSLAR"), (14898, "Erieye"), (14900, "ESR1"), (14901, "ESR220"), (14902, "ESR380"), (14903, "ESTEREL"), (14905, "ET316"), (14935, "ExocetType"), (14936, "ExocetAL"), (14940, "Exocet1"), (14985, "Exocet1MH"), (15030, "Exocet2"), (15075, "EyeBowl"), (15120, "EyeShield"), (15140, "F332Z"), (15155, "FalconClawTI"), (15156, "FalconClawTT"), (15160, "FALCON"), (15161, "FALCONG"), (15163, "FalconEye"), (15165, "FanSongA"), (15200, "FanSongBFTA"), (15210, "FanSongBFTT"), (15220, "FanSongCETA"), (15230, "FanSongCETT"), (15240, "FanSongCEMG"), (15255, "FanSongBFFMG"), (15300, "FanTail"), (15301, "FAR2117"), (15302, "FAR2827"), (15303, "FAR2837S"), (15304, "FAR3000"), (15305, "FB7Radar"), (15310, "FCR1401"), (15312, "FCS212E"), (15313, "FCS212G"), (15315, "FCS221A"), (15317, "FCS221C"), (15318, "FCS222"), (15319, "FCS231"), (15320, "FCS3"), (15345, "FinCurve"), (15390, "FireCan"), (15435, "FireDish"), (15470, "FireDomeTA"), (15475, "FireDomeTT"), (15480, "FireDomeTI"), (15525, "FireIron"), (15570, "FireWheel"), (15615, "FishBowl"), (15620, "FK3"), (15650, "FLAIR"), (15660, "FlapLid"), (15661, "_30N6E"), (15705, "FlapTruck"), (15750, "FlapWheel"), (15795, "FlashDance"), (15800, "FlashDanceM"), (15840, "P15"), (15842, "_35N6"), (15885, "FlatScreen"), (15930, "FlatSpin"), (15970, "FlatTrackJammer"), (15975, "FlatTwin"), (15980, "FL400"), (15985, "FL1800"), (15990, "FL1800U"), (16000, "FL1800S"), (16020, "Fledermaus"), (16030, "FLYCATCHER"), (16035, "FLYCATCHERMK2"), (16065, "FlyScreen"), (16110, "FlyScreenAB"), (16155, "FlyTrapB"), (16160, "FM90"), (16200, "FogLampMG"), (16245, "FogLampTT"), (16290, "FoilTwo"), (16300, "FootBall"), (16335, "FoxHunter"), (16380, "FoxFireAL"), (16390, "FoxFireILL"), (16400, "FR151A"), (16405, "FurunoFR1500FR1600"), (16410, "FR1505DA"), (16412, "FR1510DS"), (16420, "FR2000"), (16421, "Furuno2855W"), (16422, "FregatMAE"), (16423, "FregatN1"), (16424, "FregatN2"), (16425, "FrontDome"), (16426, "FregatMAE5"), (16470, "FrontDoor"), (16515, "FrontPiece"), (16520, "FurbymmWMH"), (16550, "Furke"), (16552, "Furke2"), (16554, "Furke4"), (16560, "Furuno"), (16561, "Furuno1721"), (16564, "Furuno1934C"), (16565, "Furuno1715"), (16580, "Furuno1730"), (16581, "Furuno1731Mark3"), (16585, "Furuno1832"), (16587, "Furuno1835"), (16590, "Furuno1932"), (16596, "Furuno1935"), (16605, "Furuno701"), (16606, "Furuno1940"), (16650, "Furuno7112"), (16652, "FurunoFR2130S"), (16654, "FurunoFAR2137S"), (16655, "FurunoFAR28X7"), (16658, "FurunoFAR3230S"), (16660, "FR2110"), (16662, "FR2115"), (16663, "FR8062"), (16670, "Furuno2125"), (16690, "Furuno240"), (16695, "Furuno2400"), (16725, "FR801D"), (16730, "Furuno8051"), (16732, "FurunoDRS2D"), (16733, "FurunoDRS4D"), (16734, "FurunoDRS4A"), (16735, "G030A"), (16736, "FurunoDRS6AXClass"), (16737, "DRS4W"), (16740, "GA0100"), (16750, "Gabbiano"), (16785, "Gage"), (16787, "Gaofen3"), (16789, "GAOFEN12"), (16790, "GAPGATE"), (16800, "Gardenia"), (16815, "GarminGMR1224"), (16820, "GarminFantom24"), (16825, "GarminGWX68WeatherRadar"), (16830, "Garpin"), (16833, "GateGuard"), (16835, "GarpunBalE"), (16840, "GBS1"), (16850, "GCA2000"), (16858, "Furuno18321921Series"), (16870, "GEMINIDB"), (16871, "GEMOlympus"), (16872, "GEMSentinel"), (16875, "GEMBX132"), (16876, "GEMSC2050X"), (16877, "GEMSeaEagle200N"), (16879, "GenericInternalJammer"), (16880, "MPDR12"), (16881, "GENX"), (16884, "GepardTT"), (16888, "GERANF"), (16890, "GERFAUT"), (16895, "GFE1"), (16900, "GIRAFFE"), (16903, "GIRAFFE1X"), (16905, "Giraffe40"), (16908, "Giraffe50AT"), (16912, "Giraffe75"), (16915, "GinSlingTA"), (16920, "GinSling"), (16925, "GinSlingMG"), (16930, "GoalKeeper"), (16935, "GoldenDome"), (16940, "GoldenHeart"), (16942, "GoldenRock"), (16945, "GPN22"), (16946, "GPSJ10"), (16947, "GPSJ25"), (16948, "GPSJ40"), (16949, "GPSJ50"), (16950, "GRN9"), (16951, "GRANK"), (16960, "GraveStone"), (16963, "GRAVES"), (16965, "GreenStain"), (17010, "GridBow"), (17016, "GrifoF"), (17025, "_9S32"), (17027, "GRILLSCREEN"), (17029, "Grom2"), (17030, "GROUNDMASTER400"), (17031, "GT4"), (17032, "GRS440"), (17050, "GUARDIAN"), (17055, "Guardsman"), (17070, "RPK2"), (17075, "HRJZ7264AJammer"), (17079, "H025"), (17080, "HADR"), (17100, "HairNet"), (17145, "HalfPlateA"), (17190, "HalfPlateB"), (17220, "HARD"), (17225, "Harpoon"), (17230, "HatBox"), (17235, "HawkScreech"), (17250, "HayPole"), (17255, "HayRick"), (17280, "HeadLightA"), (17325, "HeadLights"), (17370, "HeadLightsC"), (17415, "HeadLightsMGA"), (17460, "HeadLightsMGB"), (17505, "HeadLightsTT"), (17550, "HeadNet"), (17572, "HeartAcheB"), (17590, "HellfiremmWMH"), (17595, "HenEgg"), (17640, "HenHouse"), (17685, "HenNest"), (17730, "HenRoost"), (17732, "Herakles"), (17735, "HF2MG"), (17745, "HGR105"), (17775, "HighBrick"), (17820, "HighFix"), (17842, "HighGuard"), (17865, "HighLarkTI"), (17910, "HighLark1"), (17955, "HighLark2"), (18000, "HighLark4"), (18045, "HighLune"), (18090, "HighPoleAB"), (18135, "HighScoop"), (18150, "_9S19MT"), (18180, "HighSieve"), (18185, "HillBlock"), (18189, "HimalayasCountermeasuresSuite"), (18190, "HG9550"), (18193, "HJ6374"), (18194, "HLDRADAR900"), (18195, "HLJQ520"), (18200, "HN503"), (18201, "HNC03M"), (18225, "HomeTalk"), (18270, "HornSpoon"), (18280, "HotBrick"), (18315, "HotFlash"), (18316, "HotFlash2"), (18318, "IHS6"), (18320, "IRL144MHotShotTA"), (18325, "IRL144MHotShotTT"), (18330, "IRL144MHotShotMG"), (18331, "HPS106"), (18332, "HPS104"), (18339, "HQ9MH"), (18340, "HSR1128"), (18348, "HT233"), (18350, "HQ61"), (18351, "HRJS"), (18352, "IDerbyER"), (18353, "IBIS80"), (18355, "IBIS150"), (18357, "IBIS200"), (18360, "IFFMKXIIAIMSUPX29"), (18400, "Janet"), (18405, "IFFMKXV"), (18406, "IFFINT"), (18407, "JackKnife"), (18408, "IFFTRSP"), (18409, "JMUSICElbitSystemsJammer"), (18410, "JavelinMG"), (18445, "JALQ8"), (18449, "JFPS7"), (18450, "JayBird"), (18451, "JFPS3"), (18452, "JH10"), (18453, "JMPQP7"), (18454, "JL7"), (18455, "JL10B"), (18456, "JMA1576"), (18457, "JRCJMA92526CA"), (18458, "JLP40"), (18459, "JRCJMR9200SeriesX"), (18460, "JRCNMD401"), (18461, "JRCJRM310MK2"), (18462, "JMA1596"), (18464, "JMA7000"), (18465, "JRCJMA7700"), (18466, "JMA5320"), (18467, "JRCJMR92106XC"), (18468, "JERS1"), (18469, "JINDALEE"), (18470, "JRCJMA9900series"), (18471, "JLP40D"), (18475, "JRCJMA5300series"), (18495, "Jupiter"), (18540, "JupiterII"), (18550, "JY8"), (18551, "JY8A"), (18555, "JY9"), (18556, "JY9Modified"), (18557, "JY11EW"), (18560, "JY14"), (18561, "JY14A"), (18565, "JY16"), (18570, "JY24"), (18571, "JAPG1"), (18572, "JAPG2"), (18575, "JY29"), (18578, "JYL1"), (18580, "JYL6"), (18582, "JYL6A"), (18583, "JZQF612"), (18585, "K376Z"), (18586, "K77M"), (18600, "Kaige"), (18610, "KALKAN"), (18611, "KBPAfganit"), (18615, "KALKANII"), (18630, "KelvinHughes2A"), (18675, "KelvinHughes149"), (18700, "Karpaty"), (18710, "Kashtan3JammingSystem"), (18720, "KelvinHughestype1006"), (18765, "KelvinHughestype1007"), (18766, "KelvinHughesType1007FBand"), (18767, "KelvinHughes2007FBand"), (18768, "KelvinHughes2007IBand"), (18770, "KHNucleus5000"), (18774, "KHMANTA"), (18775, "KHNUCLEUS26000"), (18776, "KHNUCLEUS35000"), (18777, "KHNUCLEUS36000A"), (18780, "KHFamily"), (18781, "KelvinHughes6000A"), (18782, "Kh38MAEMH"), (18784, "KG8605A"), (18785, "KH902M"), (18786, "KHOROMK"), (18787, "KHIBINY"), (18789, "KG300E"), (18790, "KHSharpEye"), (18791, "KHSharpEyeB"), (18792, "KHSharpEyeC"), (18795, "KH1700"), (18797, "KingPin"), (18805, "KG300"), (18810, "KiteScreech"), (18855, "KiteScreechA"), (18900, "KiteScreechB"), (18930, "KLC3B"), (18944, "KJ500NanjingRadar"), (18945, "Kivach"), (18946, "KJ500Jammer"), (18947, "KLC1"), (18948, "KLJ1"), (18950, "KLJ3"), (18951, "KLJ4"), (18952, "KLJ4B"), (18955, "KLJ5"), (18960, "KLJ7"), (18961, "KLJ7B"), (18962, "KLJ7A"), (18990, "KnifeRest"), (19035, "P10"), (19037, "KNIFERESTC"), (19039, "KodenMD3730"), (19040, "KJ2000"), (19041, "KODENMDC900"), (19042, "Koopol"), (19045, "KOPYOI"), (19050, "KR75"), (19051, "KRONOS"), (19052, "KREDO1E"), (19053, "Krasukha2"), (19054, "KRONOSGRANDNAVAL"), (19060, "KRM66E"), (19080, "KSASRN"), (19125, "KSATSR"), (19127, "KS1APHASEDARRAY"), (19129, "KS418"), (19130, "KS418E"), (19131, "KZ100"), (19132, "KZ900"), (19140, "L175V"), (19142, "L3705PresidentSJammer"), (19143, "L415"), (19145, "L88"), (19150, "LAADS"), (19170, "LandFall"), (19215, "LandRollMG"), (19260, "LandRollTA"), (19305, "LandRollTT"), (19306, "LAZUR"), (19307, "Model791A"), (19309, "LAP3000"), (19310, "LC150"), (19320, "LEER3"), (19330, "LegDrive"), (19340, "LeninetzV004"), (19350, "Leningraf"), (19370, "LIANA"), (19395, "LightBulb"), (19396, "LIRAA10"), (19397, "LIROD8"), (19398, "LIRODMKII"), (19399, "LLX05K"), (19400, "LMTNRAI6A"), (19440, "LN55"), (19485, "Ln66"), (19500, "Liman"), (19505, "Liman2"), (19520, "LockheedVigilance"), (19530, "LongBow"), (19575, "LongBrick"), (19620, "LongBull"), (19665, "LongEye"), (19710, "LongHead"), (19755, "LongTalk"), (19800, "LongTrack"), (19845, "LongTrough"), (19890, "LookTwo"), (19920, "LOPAR"), (19935, "LORAN"), (19950, "LowBlowTA"), (19955, "LowBlowTT"), (19960, "LowBlowMG"), (19970, "LowJackTT"), (19971, "LowJackMG"), (19980, "LowSieve"), (20025, "LowTrough"), (20029, "LR66"), (20030, "LRA900"), (20040, "TRS2050"), (20060, "LW01"), (20070, "LW08"), (20090, "M1983FCR"), (20115, "M2240"), (20160, "M44"), (20205, "M401Z"), (20250, "M585Z"), (20295, "M588Z"), (20340, "MA1IFFPortion"), (20350, "MADHACK"), (20360, "MARELD"), (20385, "MAType909"), (20420, "MARCS152"), (20430, "Marconi1810"), (20475, "MarconiCanadaHC75"), (20495, "MarconiS713"), (20520, "MarconiS1802"), (20530, "MarconiS247"), (20565, "MarconiS810"), (20585, "MarconiSA10"), (20589, "MARCONIST801"), (20590, "MarconiST805"), (20610, "Marconitype967"), (20655, "Marconitype968"), (20700, "Marconitype992"), (20745, "Marconisignaaltype1022"), (20790, "Marconisignaaltype910"), (20835, "Marconisignaaltype911"), (20880, "Marconisignaaltype992R"), (20890, "MARTELLO743D"), (20895, "MARTELLOS723A"), (20897, "MASTERA"), (20898, "MBDAFLAADSMJammer"), (20915, "MELCO3"), (20917, "MELODI"), (20918, "MERLIN"), (20919, "Meraj4"), (20920, "NorthropGrummanMESA"), (20925, "MeshBrick"), (20927, "METEOR1500S"), (20929, "METEOR200"), (20930, "METEOR50DX"), (20931, "METEOR300"), (20933, "MeteorBVRAAM"), (20935, "MFR"), (20940, "MFSR210045"), (20942, "MICAMH"), (20943, "MICARF"), (20945, "MineralME"), (20950, "MirageILL"), (20955, "MiysisJammer"), (20969, "MK15"), (20970, "MK15CIWS"), (21015, "MK23"), (21060, "MK23TAS"), (21105, "MK25"), (21110, "Mk25Mod3"), (21130, "Mk25Mod7"), (21150, "MK35M2"), (21195, "MK92"), (21240, "MK92CAS"), (21285, "MK92STIR"), (21330, "MK95"), (21332, "MKS818"), (21340, "MLA1"), (21359, "MMAPQ706"), (21360, "MM950"), (21375, "MMAPS705"), (21390, "MMAPS784"), (21419, "MMSPG73"), (21420, "MMSPG74"), (21465, "MMSPG75"), (21490, "MMSPN703"), (21492, "MMSPN730"), (21495, "MMSPN753B"), (21500, "MMSPQ3"), (21510, "MMSPS702"), (21555, "MMSPS768"), (21600, "MMSPS774"), (21610, "MMSPS791"), (21615, "MMSPS794"), (21620, "MMSPS798"), (21623, "MMSR"), (21625, "Model17C"), (21645, "Moon4"), (21646, "MoonPie"), (21647, "MOONCONE"), (21648, "MoonRack"), (21649, "MOONFACE"), (21650, "MMRS"), (21655, "Model360"), (21660, "Model378"), (21661, "Model970"), (21665, "Model974"), (21672, "MONOLITB"), (21675, "Monument"), (21680, "Mouse"), (21682, "MP411ESM"), (21685, "MPDR18S"), (21690, "MPDR18X"), (21692, "MPDR45E"), (21693, "MR2311"), (21695, "MPR"), (21696, "MR2314"), (21697, "MPS1"), (21698, "MR36B"), (21699, "MR231MOD"), (21700, "MR1600"), (21701, "MRR"), (21702, "MR35"), (21703, "MR36"), (21704, "MRL1"), (21705, "MRL4"), (21706, "MRL5"), (21707, "MSAM"), (21708, "MR36A"), (21709, "MSTAR"), (21710, "MT305X"), (21711, "MR10M1E"), (21712, "MR90"), (21715, "MRK411"), (21716, "MR320MTopazV"), (21720, "MSP418K"), (21735, "MuffCob"), (21780, "Mushroom"), (21825, "Mushroom1"), (21870, "Mushroom2"), (21871, "Mushroom3"), (21872, "N23"), (21873, "N011MBars"), (21874, "N011MBarsB"), (21875, "N011MBarsC"), (21876, "N011MBarsR"), (21877, "N035IrbisE"), (21878, "N036Byelka"), (21879, "N25"), (21880, "N920Z"), (21881, "N001V"), (21884, "NACOSRADARPILOTPlatinum"), (21885, "NampoB"), (21886, "NAGIRA"), (21890, "NanjingB"), (21895, "NanjingC"), (21915, "Nayada"), (21917, "NAYADA5M"), (21918, "NAYADA5PV"), (21919, "NEBOM"), (21920, "NeboSVU"), (21960, "Neptun"), (21965, "Nettuno4100"), (21970, "NIKEHERCULESMTR"), (21980, "NIKETT"), (21981, "NorthropGrummanMFEWJammer"), (21982, "NORINCO3D"), (21983, "NJ81E"), (21984, "Normandie"), (21985, "NRJ6A"), (21986, "NOSTRADAMUS"), (21987, "NPG1240"), (21988, "NPG1460"), (21989, "NPG434"), (21990, "NPG630"), (21991, "NPM510"), (21992, "NutCan"), (21995, "NPVegaLiana"), (22000, "NovellaNV1_70"), (22005, "NRBA50"), (22050, "NRBA51"), (22095, "NRBF20A"), (22110, "NRJ5"), (22115, "NS9005"), (22125, "NS100Series"), (22127, "NUR31"), (22130, "NWS3"), (22140, "NysaB"), (22185, "O524A"), (22230, "O580B"), (22275, "O625Z"), (22320, "O626Z"), (22335, "OceanMaster"), (22340, "OceanMaster400"), (22345, "OddGroup"), (22365, "OddLot"), (22410, "OddPair"), (22411, "OddRods"), (22455, "Oka"), (22460, "OFOGH"), (22463, "OFOGH3"), (22500, "OKEAN"), (22505, "OKEANA"), (22545, "OKINXE12C"), (22560, "OKO"), (22590, "OMEGA"), (22635, "OmeraORB32"), (22640, "OMUL"), (22680, "OneEye"), (22690, "OP28"), (22695, "OPRL4"), (22696, "OPRM71"), (22697, "OPS9"), (22700, "OPS11BC"), (22701, "OPS12"), (22705, "OPS14B"), (22706, "OPS14C"), (22725, "OPS16B"), (22730, "OPS18"), (22732, "OPS19"), (22735, "OPS20"), (22736, "OPS22"), (22737, "OPS24"), (22740, "OPS28"), (22745, "OPS28C"), (22750, "OPS39"), (22760, "OPTIMA3_2"), (22770, "OR2"), (22800, "ORB31D"), (22810, "ORB31S"), (22815, "ORB32"), (22830, "ORB42"), (22860, "OrionRtn10X"), (22890, "SurfaceWave"), (22900, "OtomatMK1"), (22905, "OtomatMKIITeseo"), (22906, "OtomatSeriesAL"), (22950, "OwlScreech"), (22955, "P360Z"), (22956, "P14"), (22957, "P180U"), (22959, "P182"), (22960, "PA1660"), (22961, "P18M"), (22962, "P190U"), (22963, "P30"), (22964, "P18MOD"), (22965, "P35M"), (22970, "PAGE"), (22977, "PaintBox"), (22995, "PalmFrond"), (22998, "ModifiedPaintBox"), (23040, "PalmFrondAB"), (23041, "Pandora"), (23042, "PALSAR2"), (23043, "PantsirSMTAR"), (23045, "PAR2"), (23050, "PAR2000"), (23053, "PAR2090C"), (23055, "PAR80"), (23085, "PatHandTT"), (23095, "PatHandMG"), (23100, "PATRIOT"), (23130, "PattyCake"), (23175, "PawnCake"), (23220, "PBR4Rubin"), (23240, "PCS514"), (23265, "PeaSticks"), (23295, "PechoraSC"), (23310, "PeelCone"), (23355, "PeelGroup"), (23400, "PeelGroupA"), (23445, "PeelGroupB"), (23450, "PeelGroupMG"), (23490, "PeelPair"), (23500, "Pelena"), (23515, "PGZ07"), (23525, "Phalanx"), (23529, "PhazotronGukol4"), (23530, "PhazotronZhukAAE"), (23535, "Philips9LV200"), (23580, "Philips9LV331"), (23625, "PhilipsLV223"), (23670, "PhilipsSeaGiraffe50HC"), (23675, "PhimatJammer"), (23680, "PICOSAR"), (23685, "PILOTMK2"), (23690, "PinJib"), (23695, "PinTip"), (23700, "PL11"), (23701, "PL12"), (23704, "PL15"), (23710, "PlankShad"), (23715, "PlankShave"), (23760, "PlankShaveA"), (23805, "PlankShaveB"), (23850, "PlateSteer"), (23895, "PlesseyAWS1"), (23925, "PlesseyAWS2"), (23940, "PlesseyAWS4"), (23985, "PlesseyAWS6"), (23990, "PlesseyRJ"), (24020, "PlesseyType904"), (24030, "Plesseytype996"), (24035, "PlesseyAWS9"), (24075, "PlinthNet"), (24095, "Pluto"), (24098, "PNABRubinDownBeat"), (24100, "POHJANPALO"), (24110, "PolimentK"), (24120, "POLLUX"), (24165, "PotGroup"), (24210, "PotGroupMG"), (24255, "PotGroupTA"), (24300, "PotGroupTT"), (24320, "PorkFist"), (24345, "PorkTrough"), (24385, "PozitivME15P26"), (24386, "PositiveME1_2"), (24390, "PostBow"), (24435, "PostLamp"), (24480, "PotDrum"), (24525, "PotHead"), (24535, "PotShot"), (24540, "PraetorianCountermeasuresSuite"), (24569, "PRIMUS30A"), (24570, "PRIMUS40WXD"), (24614, "Primus400"), (24615, "PRIMUS300SL"), (24616, "Primus500"), (24617, "Primus650"), (24618, "Primus700"), (24619, "PRIMUS800"), (24620, "Primus3000"), (24622, "Primus870"), (24630, "PRORA"), (24631, "PRS2"), (24633, "PRS3Argon2"), (24635, "PRORAPA1660"), (24640, "PS15"), (24650, "PS05A"), (24660, "PS46A"), (24705, "PS70R"), (24706, "PS171R"), (24707, "PS860"), (24709, "PS870"), (24710, "PS890"), (24720, "PSM33"), (24750, "PuffBall"), (24755, "QuadradarVI"), (24757, "QW1A"), (24758, "Phazotron1RS21E"), (24760, "PVS200"), (24761, "PVS2000"), (24768, "R330ZH"), (24769, "R045"), (24770, "R76"), (24771, "R934B"), (24772, "RA20"), (24774, "RA723"), (24775, "R41XXX"), (24776, "RAC3D"), (24780, "RAC30"), (24781, "R423AM"), (24795, "Racal1229"), (24800, "DECCA1230"), (24840, "RacalAC2690BT"), (24885, "RacalDecca1216"), (24890, "RacalDECCA20V909"), (24930, "RacalDecca360"), (24975, "RacalDeccaAC1290"), (25020, "RacalDeccaTM1229"), (25065, "RacalDeccaTM1626"), (25110, "RacalDRBN34A"), (25150, "RADAMHR"), (25155, "Radar24"), (25170, "RADARPILOT1000"), (25171, "RADARPILOT1100"), (25180, "RAJENDRA"), (25200, "RAN7S"), (25205, "RAN10S"), (25245, "RAN11LX"), (25250, "Rani"), (25259, "RAPHAELTH"), (25260, "RapierTA"), (25265, "Rapier2000TA"), (25270, "RapierMG"), (25273, "RASCAR3400C"), (25275, "Rashmi"), (25276, "Rasit"), (25277, "Rasit3190B"), (25278, "RAT31DLM"), (25279, "RAT31DL"), (25280, "RAT31S"), (25281, "RAT8S"), (25282, "RAT31SL"), (25283, "RavenES05"), (25285, "RATAC"), (25286, "RAWL"), (25287, "Rattler"), (25288, "RAWS"), (25289, "RAWL02"), (25290, "Raytheon1220"), (25291, "RAWS03"), (25292, "Raytheon1210xx"), (25300, "Raytheon1302"), (25335, "Raytheon1500"), (25380, "Raytheon1645"), (25425, "Raytheon1650"), (25470, "Raytheon1900"), (25515, "Raytheon2502"), (25530, "RaytheonAnschutzNautoScanNX"), (25540, "RaytheonR41"), (25545, "RaytheonRM10256X"), (25550, "RaytheonSL72"), (25560, "RaytheonTM16506X"), (25605, "RaytheonTM166012S"), (25630, "RAY1220XR"), (25635, "RAY1401"), (25650, "Ray2900"), (25694, "RaymarineRD218"), (25695, "Raypath"), (25698, "RaytheonPathfinderSTmk2"), (25735, "RBE2"), (25736, "RBE2AA"), (25739, "RCT180"), (25740, "RDM"), (25745, "RDM3"), (25750, "RDI"), (25760, "RDY"), (25762, "RDY3"), (25770, "RDS86"), (25785, "RDN72"), (25830, "RDR1A"), (25835, "RDR1E"), (25840, "RDR4A"), (25845, "RDR150"), (25850, "RDR160XD"), (25853, "RDR230HP"), (25855, "RDR1100"), (25860, "RDR1150"), (25875, "RDR1200"), (25885, "RDR1400"), (25890, "RDR1400C"), (25891, "RDR4000_1"), (25892, "RDR4000_2"), (25895, "RDR1500"), (25896, "RiceCake"), (25897, "RDR1600"), (25898, "RDR2000"), (25899, "RDR1700B"), (25900, "Remora"), (25901, "RiceField"), (25902, "REC1A"), (25903, "REC1B"), (25904, "REC1C"), (25906, "ResolveEAS"), (25907, "RiceCupC"), (25908, "REL6E"), (25909, "REC1"), (25910, "RiceBowl"), (25911, "ImprovedReporter"), (25912, "RiceBug"), (25915, "RiceCup"), (25920, "RiceLamp"), (25940, "REVATHI"), (25950, "REZONANS"), (25955, "RGMUGM109B"), (25958, "RGMUGM109EHomingRadar"), (25965, "RicePad"), (25966, "RKL526"), (25967, "RKZ764"), (25968, "RKZ766"), (25969, "RKL165"), (25970, "RKL609"), (25971, "RKL800"), (25972, "RKZ761"), (25973, "RKZ2000"), (25974, "RIS4CA"), (25975, "RL2000"), (25976, "RL41"), (25977, "RIR778"), (25978, "RISAT"), (25979, "RLMS"), (25980, "RimHatESMECMSuite"), (26008, "RiceScoop"), (26010, "RiceScreen"), (26011, "DECCATM1070A"), (26015, "RM370BT"), (26020, "RockwellCollinsFMR200X"), (26040, "RM2312"), (26041, "RM23123"), (26043, "RMT0100A"), (26045, "RN222"), (26053, "ROLAND2"), (26055, "ROLANDBN"), (26100, "ROLANDMG"), (26145, "ROLANDTA"), (26190, "ROLANDTT"), (26210, "ROTODOME"), (26235, "RoundBall"), (26236, "RP379DTiradaD"), (26237, "RP3"), (26238, "RP4G"), (26280, "RoundHouse"), (26325, "RoundHouseB"), (26326, "RPR117"), (26327, "RS0250"), (26328, "RSR210N"), (26330, "RT0250"), (26340, "RTA4100"), (26350, "RTN1A"), (26353, "RTN25X"), (26354, "RTS6400"), (26355, "RubyRake"), (26360, "RumSling"), (26361, "RumSlingRO"), (26362, "RumSlingTT"), (26370, "RV2"), (26415, "RV3"), (26460, "RV5"), (26505, "RV10"), (26506, "RV15M"), (26550, "RV17"), (26595, "RV18"), (26596, "RV21"), (26597, "RV21B"), (26600, "RV25"), (26610, "RV377"), (26640, "RVUM"), (26650, "RWD8"), (26660, "RXN260"), (26665, "RyeHouse"), (26670, "S1810CD"), (26672, "Sahab"), (26673, "Salamandre"), (26674, "SamyungSMR7200"), (26675, "S1850M"), (26676, "S511"), (26677, "S512"), (26678, "S600"), (26679, "S604"), (26680, "S763LANZA3D"), (26681, "S613"), (26682, "S631"), (26683, "S654"), (26684, "S669"), (26685, "SA2Guideline"), (26686, "S244"), (26687, "S711"), (26730, "SA3Goa"), (26775, "SA8GeckoDT"), (26795, "SA12TELARILL"), (26797, "SA23TELIlluminator"), (26799, "SABERM60"), (26805, "Samovar"), (26810, "Sampson"), (26820, "SAN7GadflyTI"), (26865, "SAN11Cads1UN"), (26900, "SaccadeMH"), (26910, "SaltPotAB"), (26920, "SAP14"), (26925, "SAP518"), (26926, "SAP518M"), (26930, "SandBar"), (26935, "SAPechora2MTT"), (26945, "SAR"), (26950, "SATRAPE"), (26955, "SATURNEII"), (27000, "ScanCan"), (27045, "ScanFix"), (27090, "ScanOdd"), (27095, "SCANTER1002"), (27100, "SCANTER2001"), (27101, "SCANTER2002"), (27102, "SCANTER2100"), (27109, "SCANTER4002"), (27110, "SCANTER4100"), (27111, "SCANTER5102"), (27113, "SCANTER5502"), (27115, "SCANTER6000"), (27116, "SCANTER6002"), (27125, "ScanterMil009"), (27135, "ScanThree"), (27137, "SCANTERMILS"), (27139, "ScanterSMR"), (27140, "SCANTER"), (27141, "SCORADS"), (27142, "Scimitar"), (27143, "STAR2000"), (27150, "SCOREBOARD"), (27175, "ScoopPair"), (27180, "ScoupPlate"), (27183, "SCOUT"), (27190, "SCR584"), (27225, "SeaArcher2"), (27230, "SeaBasedXBand"), (27235, "SeaDragon"), (27239, "SeaEagle"), (27240, "SeaEagleSC"), (27245, "SEAFALCON"), (27248, "SeaGiraffeAMB"), (27251, "Seaguard"), (27260, "SeaHawkSHNX12"), (27270, "SeaHunter4MG"), (27315, "SeaHunter4TA"), (27360, "SeaHunter4TT"), (27405, "SeaGull"), (27430, "SeaMaster400"), (27450, "SeaNet"), (27451, "SeaSparrow"), (27495, "SeaSpray"), (27540, "SeaTiger"), (27550, "SeaTigerM"), (27560, "Seastar"), (27570, "Searchwater"), (27575, "Searchwater2000"), (27580, "SEASONDE"), (27582, "SEASPRAY7000E"), (27583, "SeaVue"), (27584, "SeasprayMk3"), (27585, "SeleniaOrion7"), (27630, "Seleniatype912"), (27675, "SelenniaRAN12LX"), (27680, "SeleniaRAN20S"), (27720, "SelenniaRTN10X"), (27765, "SeliniaARP1645"), (27770, "SENTIRM20"), (27771, "SERDAR"), (27773, "SERHAT"), (27775, "Series10CompactSubmarineRadarCSR"), (27780, "SERIES52"), (27790, "SERIES320"), (27800, "SG"), (27802, "SGJ02"), (27803, "SGJ03"), (27810, "SGR10200"), (27855, "SGR10302"), (27870, "SGR104"), (27873, "Shahed129SAR"), (27875, "SHAHINE"), (27900, "SheetBend"), (27945, "SheetCurve"), (27980, "SHIKRA"), (27990, "ShipGlobe"), (28035, "ShipWheel"), (28080, "SGR114"), (28125, "ShoreWalkA"), (28170, "ShortHorn"), (28215, "ShotDome"), (28260, "SideGlobeJN"), (28280, "PRV11"), (28305, "SideWalkA"), (28350, "SignaalDA02"), (28395, "SignaalDA05"), (28440, "SignaalDA08"), (28445, "SignaalDA082LS"), (28480, "SignaalLW04"), (28485, "SignaalLW08"), (28530, "SignaalLWOR"), (28575, "SignaalM45"), (28620, "SignaalMW08"), (28665, "SignaalSMART"), (28710, "SignaalSTING"), (28755, "SignaalSTIR"), (28760, "SignaalSTIR1_8M"), (28770, "SignaalSTIR24M"), (28800, "SignaalWM202"), (28845, "SignaalWM25"), (28890, "SignaalWM27"), (28935, "SignaalWM28"), (28980, "SignaalZW01"), (29025, "SignaalZW06"), (29030, "SignaalZW07"), (29035, "SignaalZW0800"), (29043, "SIMRAD3G"), (29045, "SIMRAD4G"), (29050, "SimradCA54"), (29060, "SIMRADHalo6"), (29070, "SkiPole"), (29115, "SkinHead"), (29160, "SkipSpin"), (29172, "SKYFENDER"), (29175, "SkyWave"), (29180, "SkyguardB"), (29185, "SKYGUARDTA"), (29190, "SKYGUARDTT"), (29191, "SkyguardLR"), (29200, "Skymaster"), (29205, "SkyWatch"), (29210, "SkyRanger"), (29215, "SKYSHADOW"), (29220, "SKYSHIELDTA"), (29250, "SL"), (29270, "SLALQ234"), (29295, "SlapShot"), (29297, "SlapShotG"), (29300, "SLC2"), (29301, "SLC2E"), (29305, "SLC4"), (29340, "SlimNet"), (29385, "SlotBackA"), (29400, "SlotBackILL"), (29430, "SlotBackB"), (29431, "SlotBackIV"), (29432, "SlotBackBTopaz"), (29433, "SlotBackE"), (29434, "SlotBackG"), (29435, "SlotBackVI"), (29440, "SlotRest"), (29450, "SM674AUPM"), (29475, "SMA3RM"), (29520, "SMA3RM20"), (29565, "SMA3RM20ASMG"), (29610, "SMABPS704"), (29655, "SMASPIN749V2"), (29700, "SMASPN703"), (29745, "SMASPN751"), (29790, "SMASPOS748"), (29835, "SMASPQ2"), (29880, "SMASPQ2D"), (29925, "SMASPQ701"), (29970, "SMASPS702"), (30015, "SMAST2OTOMATIIMH"), (30016, "SR47A"), (30060, "SMA718Beacon"), (30065, "SmallFred"), (30068, "SMARTS"), (30069, "SMARTSMk2"), (30070, "SMARTL"), (30072, "SM932"), (30075, "SmogLamp"), (30080, "SnapShot"), (30105, "SnoopDrift"), (30140, "SnoopHalf"), (30150, "SnoopHead"), (30195, "SnoopPair"), (30200, "SnoopPing1"), (30240, "SnoopPlate"), (30255, "SnoopPing"), (30285, "SnoopSlab"), (30330, "SnoopTray"), (30375, "SnoopTray1"), (30420, "SnoopTray2"), (30421, "SNOOPTRAY3"), (30465, "SnoopWatch"), (30470, "_9S18M1"), (30471, "_9S18M1E"), (30475, "SPB7"), (30480, "SnowDrop"), (30490, "SNW10"), (30510, "SO1"), (30520, "SO12"), (30555, "SOACommunist"), (30580, "SO69"), (30600, "SockEye"), (30645, "SOM64"), (30650, "Sopka"), (30660, "Sorbsiya"), (30661, "SorbtsiyaL005"), (30662, "SorbtsiyaL005S"), (30665, "SPADASIR"), (30670, "SPADATT"), (30690, "SparrowILL"), (30691, "SPERRYRASCAR"), (30692, "SPECTRA"), (30696, "SPEAR3MMW"), (30700, "SperryM3"), (30701, "SPERRYVISIONMASTERFT"), (30710, "SPEXER2000"), (30735, "SPG53F"), (30780, "SPG70"), (30825, "SPG74"), (30870, "SPG75"), (30915, "SPG76"), (30960, "SpinScanA"), (31005, "SpinScanB"), (31050, "SpinTrough"), (31070, "SPINODADDAWTR"), (31080, "SPJ40"), (31095, "SplashDrop"), (31096, "SPN2"), (31097, "SPN4"), (31100, "SPN30"), (31140, "SPN35A"), (31185, "SPN41"), (31230, "SPN42"), (31275, "SPN43A"), (31320, "SPN43B"), (31365, "SPN44"), (31410, "SPN46"), (31455, "SPN703"), (31475, "SPN720"), (31500, "SPN7281"), (31545, "SPN748"), (31590, "SPN750"), (31592, "SPO8"), (31593, "SPN753G"), (31635, "SpongeCake"), (31680, "P12"), (31681, "P18SpoonRestA"), (31682, "P18SpoonRestB"), (31684, "P18SpoonRestC"), (31685, "P18MH2"), (31700, "SporkRest"), (31725, "SPQ712"), (31730, "SPR2"), (31740, "SPR51"), (31765, "SPS5FASOL"), (31766, "SPS6"), (31770, "SPS6C"), (31815, "SPS10F"), (31860, "SPS12"), (31870, "SPS22NBUKET"), (31875, "SPS33NBUKET"), (31880, "SPS44NBUKET"), (31890, "SPS55NBUKET"), (31905, "SPS58"), (31925, "SPS62"), (31935, "SPS100K"), (31950, "SPS64"), (31951, "SPS141"), (31952, "SPS142"), (31953, "SPS143"), (31955, "SPS151"), (31956, "SPS152"), (31957, "SPS153"), (31959, "SPS160Geran"), (31960, "SPS161"), (31970, "SPS95K"), (31971, "SPS171Jammer"), (31972, "SPS172Jammer"), (31995, "SPS768"), (32010, "SPS540K"), (32020, "SPS550KMF"), (32040, "SPS774"), (32085, "SPY790"), (32130, "SquareHead"), (32175, "SquarePair"), (32220, "SquareSlot"), (32265, "SquareTie"), (32310, "Shmel"), (32330, "P15M"), (32355, "SquintEye"), (32365, "SQUIRE"), (32373, "SR2410C"), (32375, "SR47BG"), (32385, "SREM5"), (32400, "SRN6"), (32445, "SRN15"), (32455, "SRN206"), (32490, "SRN745"), (32535, "SRO1"), (32580, "SRO2"), (32625, "SSC2BSamletMG"), (32670, "SSN2ABCSSC"), (32715, "SSN2ABCSSC2A3A2MH"), (32760, "SSN2CSeeker"), (32805, "SSN2CDStyx"), (32850, "SSN2CDStyxCDMH"), (32851, "SSN2CStyxAL"), (32852, "SSN2DStyxAL"), (32895, "SSN2SSCSSC18BN"), (32940, "SSN3BSepalAL"), (32985, "SSN3BSepalMH"), (33025, "SSN7Starbright"), (33030, "SSN9Siren"), (33075, "SSN9SirenAL"), (33120, "SSN9SirenMH"), (33125, "SSN10AFL10mmWMH"), (33140, "SSN11Nasr1mmWMH"), (33165, "SSN12SandboxAL"), (33166, "SSN12YJ83JmmWMH"), (33210, "SSN12SandboxMH"), (33230, "SSNX13Shredder"), (33231, "SSN14BSilexAL"), (33255, "SSN19Shipwreck"), (33300, "SSN19ShipwreckAL"), (33345, "SSN19ShipwreckMH"), (33390, "SSN21AL"), (33435, "SSN22Sunburn"), (33480, "SSN22SunburnMH"), (33481, "SSN22SunburnAL"), (33483, "SSN25SwitchbladeMH"), (33484, "SSN26StrobileMMWMH"), (33485, "SSN27SizzlerMH"), (33486, "SSN27ASizzlerAL"), (33505, "STINGEOMk2"), (33510, "STIR1_2EOMk2"), (33511, "STIR2_4HPMk2"), (33525, "StoneCake"), (33570, "STR41"), (33580, "ST858"), (33582, "START1M"), (33584, "STENTOR"), (33585, "StormShadowAHR"), (33586, "STRAIGHTFLUSH"), (33590, "StraightFlushTA"), (33595, "StraightFlushTT"), (33600, "StraightFlushILL"), (33615, "StrikeOut"), (33660, "StrutCurve"), (33705, "StrutPair"), (33750, "StrutPair1"), (33795, "StrutPair2"), (33840, "SunVisor"), (33850, "SUPERDARN"), (33860, "Superfledermaus"), (33870, "Supersearcher"), (33885, "SwiftRod1"), (33930, "SwiftRod2"), (33933, "SYMPHONY"), (33935, "SYNAPSISMk2"), (33950, "SY80"), (33975, "T1166"), (34020, "T1171"), (34040, "T1202"), (34065, "T6004"), (34110, "T6031"), (34155, "T8067"), (34200, "T8068"), (34245, "T8124"), (34290, "T8408"), (34335, "T8911"), (34380, "T8937"), (34425, "T8944"), (34470, "T8987"), (34480, "TA10K"), (34500, "JY11B"), (34505, "TACANSURF"), (34515, "P14_2"), (34516, "TALLKINGB"), (34517, "TALLKINGC"), (34560, "TallMike"), (34605, "TallPath"), (34607, "TDR94"), (34610, "TeaSpoon"), (34620, "TeamPlay"), (34624, "TALISMAN"), (34625, "TeamWork"), (34626, "T1135"), (34627, "TANCANSURF"), (34628, "TECSAR"), (34629, "TERRASARX"), (34630, "TESAR"), (34640, "THAADGBR"), (34644, "ThalesRDY2"), (34645, "ThalesNederlandSignaalAPAR"), (34646, "ThalesScorpionJammer"), (34647, "ThalesVariant"), (34648, "ThalesICMSJammer"), (34649, "ThalesIMEWSJammer"), (34650, "THD225"), (34655, "THD1012"), (34660, "THD1098"), (34665, "THD1213"), (34670, "THD1940"), (34680, "THD1955Palmier"), (34695, "THD5500"), (34700, "ThirdofKhordad"), (34740, "ThinPath"), (34785, "PRV9"), (34786, "PRV16"), (34795, "ThompsonCSFTA10"), (34830, "ThompsonCSFTHD1040Neptune"), (34875, "ThompsonCSFCalypso"), (34920, "ThompsonCSFCASTOR"), (34965, "ThompsonCSFCastorII"), (34966, "ThomsonCSFDomino30"), (35010, "ThompsonCSFDRBC32A"), (35055, "ThompsonCSFDRBJ11DE"), (35100, "ThompsonCSFDRBV15A"), (35145, "ThompsonCSFDRBV15C"), (35190, "ThompsonCSFDRBV22D"), (35235, "ThompsonCSFDRBV23B"), (35280, "ThompsonCSFDRUA33"), (35325, "ThompsonCSFMarsDRVB21A"), (35370, "ThompsonCSFSeaTiger"), (35415, "ThompsonCSFTriton"), (35460, "ThompsonCSFVegawithDRBC32E"), (35470, "ThomsonENR"), (35475, "ThomsonRDI"), (35477, "TierIIPlus"), (35478, "TPS755"), (35479, "TPS830K"), (35480, "TRS2105"), (35481, "TR23K"), (35482, "TR23MR"), (35483, "TRAC2100"), (35484, "TRAC2300"), (35485, "HT223"), (35486, "TRADEX"), (35487, "TRAILXI"), (35488, "TRD1211"), (35489, "TRD1235"), (35490, "TRS2100"), (35491, "TRACNG"), (35505, "TieRods"), (35550, "_36D6"), (35570, "TinTrap"), (35580, "TIRSPONDER"), (35583, "TK25E5"), (35585, "TMKMk2"), (35586, "TMXMk2"), (35595, "ToadStool1"), (35640, "ToadStool2"), (35685, "ToadStool3"), (35730, "ToadStool4"), (35775, "ToadStool5"), (35785, "TokenB"), (35800, "TombStone"), (35810, "Tonson"), (35820, "TopBow"), (35865, "TopDome"), (35910, "TopKnot"), (35955, "TopMesh"), (36000, "TopPair"), (36045, "TopPlate"), (36046, "TopPlateB"), (36090, "TopSail"), (36120, "TYPE208"), (36135, "TopSteer"), (36180, "TopTrough"), (36200, "TornadoGMR"), (36201, "TornadoTFR"), (36220, "ScrumHalfTA"), (36225, "ScrumHalfTT"), (36226, "TORM2TER"), (36230, "ScrumHalfMG"), (36270, "TrackDish"), (36300, "TR47C"), (36315, "TORSOM"), (36320, "TQN2"), (36360, "TrapDoor"), (36365, "TRD1500"), (36370, "TrickShotTAR"), (36371, "TrickShotTER"), (36380, "TRISPONDE"), (36381, "TRML"), (36382, "TRS2215"), (36383, "TRML3D"), (36384, "TRMS"), (36385, "TRS2056"), (36386, "TRS3010"), (36387, "TRS2060"), (36388, "TRS2245"), (36389, "TRS2310"), (36390, "TritonG"), (36391, "TRS22XX"), (36400, "TRS3030"), (36405, "TRS3033"), (36417, "TRS3203"), (36420, "TRS3405"), (36425, "TRS3410"), (36430, "TRS3415"), (36440, "TRS3D"), (36441, "TRS3D16"), (36442, "TRS3D16ES"), (36443, "TRS3D32"), (36446, "TRS4D"), (36447, "TRSC"), (36450, "TRSN"), (36460, "TS4478A"), (36495, "TSE5000"), (36540, "TSR333"), (36550, "TSR793"), (36563, "TubBrick"), (36585, "TubeArm"), (36590, "TW1374"), (36595, "TW1378"), (36600, "TW1446"), (36630, "TwinEyes"), (36675, "TwinPill"), (36720, "TwinScan"), (36765, "TwinScanRo"), (36810, "TwoSpot"), (36821, "Type071LPD"), (36827, "Type212JA"), (36830, "Type221JA"), (36835, "Type223"), (36836, "Type80ASM1"), (36838, "Type120"), (36840, "Type208"), (36843, "Type222"), (36846, "Type226"), (36850, "Type232H"), (36853, "TYPE245"), (36855, "TYPE262"), (36900, "TYPE275"), (36905, "TYPE278"), (36945, "TYPE293"), (36946, "Type341"), (36947, "TYPE313"), (36948, "Type305A"), (36960, "Type334"), (36985, "Type342"), (36990, "TYPE343SUNVISORB"), (36992, "Type344"), (37010, "Type345"), (37011, "Type346"), (37033, "Type349A"), (37035, "TYPE347B"), (37038, "Type347G"), (37039, "Type359"), (37040, "Type352"), (37041, "Type360"), (37043, "Type362ESR1SR47B"), (37045, "Type354"), (37047, "Type366"), (37048, "Type363"), (37049, "Type364"), (37050, "Type404A"), (37052, "Type405"), (37053, "TYPE405J"), (37058, "Type408D"), (37059, "Type517B"), (37060, "Type518"), (37070, "Type589"), (37073, "TYPE651"), (37075, "Type753_1"), (37077, "Type702"), (37078, "Type704"), (37079, "Type753_2"), (37080, "Type756"), (37081, "TYPE713"), (37082, "TYPE714"), (37083, "TYPE702D"), (37084, "TYPE760"), (37086, "Type760"), (37090, "Type815"), (37095, "Type793"), (37100, "Type8A813"), (37105, "TYPE901M"), (37110, "TYPE902"), (37124, "Type902B"), (37125, "TYPE903"), (37170, "TYPE909TI"), (37215, "TYPE909TT"), (37260, "TYPE910"), (37265, "TYPE931"), (37305, "TYPE965"), (37350, "TYPE967"), (37395, "TYPE968"), (37440, "TYPE974"), (37485, "TYPE975"), (37530, "TYPE978"), (37534, "Type981"), (37535, "Type9813"), (37540, "TYPE982"), (37543, "Type984"), (37544, "Type985"), (37575, "TYPE992"), (37620, "TYPE993"), (37665, "TYPE994"), (37670, "Type996"), (37675, "Type997Artisan"), (37710, "TYPE1006_1"), (37755, "TYPE1006_2"), (37800, "TYPE1022"), (37810, "Type1047"), (37815, "Type1048"), (37825, "Type1474"), (37828, "Type1493"), (37840, "ULTRA"), (37845, "UKMK10"), (37850, "UPS220C"), (37890, "UPX110"), (37935, "UPX27"), (37980, "URN20"), (37985, "UTESA"), (37990, "UTEST"), (38025, "URN25"), (38035, "VIGILANT"), (38038, "VitebskL370Jammer"), (38045, "VOLEXIIIIV"), (38046, "VOLGA"), (38047, "VORONEZHDM"), (38048, "VOSTOK"), (38049, "VOSTOKE"), (38050, "VSR"), (38051, "VOSTOK3D"), (38055, "VSTARPT"), (38058, "W160"), (38060, "W1028"), (38070, "W8818"), (38115, "W8838"), (38120, "W8852"), (38140, "WALLBOARD"), (38150, "WallRust"), (38160, "WAS74S"), (38205, "WaspHead"), (38210, "WATCHDOG"), (38250, "WatchGuard"), (38260, "Watchman"), (38270, "WAVESTORM"), (38275, "WATCHMANS"), (38276, "WATCHMANT"), (38280, "WEATHERSCOUT2"), (38295, "WesternElectricMK10"), (38320, "WestinghouseADR4LRSR"), (38340, "WestinghouseElectricSPG50"), (38385, "WestinghouseElectricW120"), (38430, "WestinghouseSPS29C"), (38475, "WestinghouseSPS37"), (38520, "WetEye"), (38525, "WetEye2"), (38565, "WetEyeMod"), (38568, "WF44S"), (38570, "WGU41B"), (38572, "WGU44B"), (38610, "Whiff"), (38655, "WhiffBrick"), (38700, "WhiffFire"), (38715, "WHITEHOUSE"), (38730, "WideMat"), (38735, "WineGlassJammer"), (38745, "WildCard"), (38748, "WILDCAT"), (38790, "WitchEight"), (38835, "WitchFive"), (38840, "WLR"), (38880, "WM2XSeries"), (38925, "WM2XSeriesCAS"), (38930, "WR10X"), (38935, "WR2100"), (38950, "WSR74C"), (38955, "WSR74S"), (38957, "WSR81"), (38960, "WXR700C"), (38965, "WXR2100"), (38966, "WXR2100MSTT"), (38970, "WoodGage"), (38990, "XTAR25"), (38995, "XTAR3D"), (39000, "YAOGAN3"), (39014, "Yaogan29"), (39015, "YardRake"), (39050, "YH96"), (39060, "YewLoop"), (39061, "YITIANADS"), (39062, "YD3"), (39063, "YJ12MH"), (39065, "YJ62MH"), (39066, "YJ82MH"), (39067, "YJ83MH"), (39070, "YLC2"), (39071, "YLC2A"), (39073, "YLC4"), (39074, "YLC6"), (39075, "YLC6M"), (39080, "YLC8"), (39081, "YLC8B"), (39085, "YLC18"), (39105, "YoYo"), (39110, "ZaslonA"), (39112, "ZaslonMultipurpose"), (39125, "ZooPark1"), (39126, "ZPS6"), (39127, "ZOOPARK3"), (39131, "ZD12"), (39150, "ZW06"), (39200, "ANALQ1361"), (39201, "ANALQ1362"), (39202, "ANALQ1363"), (39203, "ANALQ1364"), (39204, "ANALQ1365"), (39210, "ANALQ1622"), (39211, "ANALQ1623"), (39212, "ANALQ1624"), (45300, "ZhukM"), (45303, "ZHUKMAE"), (45304, "ZHUKME"), (45305, "ZHUKMME"), (45307, "ZhukMSE")] },
    EnumDef { name: "EmitterSystemFunction", width: 1, default: 0, values: &[(0, "Other"), (1, "MultiFunction"), (2, "EarlyWarningSurveillance"), (3, "HeightFinder"), (4, "FireControl"), (5, "AcquisitionDetection"), (6, "Tracker"), (7, "GuidanceIllumination"), (8, "FiringPointLaunchPointLocation"), (9, "RangeOnly"), (10, "RadarAltimeter"), (11, "Imaging"), (12, "MotionDetection"), (13, "Navigation"), (14, "WeatherMeteorological"), (15, "Instrumentation"), (16, "IdentificationClassification"), (17, "AAAFireControl"), (18, "AirSearchBomb"), (19, "AirIntercept"), (20, "Altimeter"), (21, "AirMapping"), (22, "AirTrafficControl"), (23, "Beacon"), (24, "BattlefieldSurveillance"), (25, "GroundControlApproach"), (26, "GroundControlIntercept"), (27, "CoastalSurveillance"), (28, "DecoyMimic"), (29, "DataTransmission"), (30, "EarthSurveillance"), (31, "GunLayBeacon"), (32, "GroundMapping"), (33, "HarborSurveillance"), (34, "IFF"), (35, "InstrumentLandingSystem"), (36, "IonosphericSound"), (37, "Interrogator"), (38, "BarrageJamming"), (39, "ClickJamming"), (40, "DeceptiveJamming"), (41, "FrequencySweptJamming"), (42, "Jammer"), (43, "NoiseJamming"), (44, "PulsedJamming"), (45, "RepeaterJamming"), (46, "SpotNoiseJamming"), (47, "MissileAcquisition"), (48, "MissileDownlink"), (49, "Meteorological"), (50, "Space"), (51, "SurfaceSearch"), (52, "ShellTracking"), (56, "Television"), (57, "Unknown"), (58, "VideoRemoting"), (59, "ExperimentalOrTraining"), (60, "MissileGuidance"), (61, "MissileHoming"), (62, "MissileTracking"), (64, "JammingNoise"), (65, "JammingDeception"), (66, "Decoy"), (71, "NavigationDistanceMeasuringEquipment"), (72, "TerrainFollowing"), (73, "WeatherAvoidance"), (74, "ProximityFuse"), (75, "Instrumentation_"), (76, "Radiosonde"), (77, "Sonobuoy"), (78, "BathythermalSensor"), (79, "TowedCounterMeasure"), (80, "DippingSonar"), (81, "TowedAcousticSensor"), (96, "WeaponNonlethal"), (97, "WeaponLethal"), (98, "TestEquipment"), (99, "AcquisitionTrack"), (100, "TrackGuidance"), (101, "GuidanceIlluminationTrackAcquisition"), (102, "SearchAcquisition"), (103, "Dropsonde")] },
    EnumDef { name: "EntityAssociationAssociationStatus", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "PhysicalAssociationGeneralObject1"), (2, "FunctionalAssociationGeneral"), (3, "AssociationBroken"), (4, "PhysicalAssociationObject2"), (5, "FunctionalAssociationObject1"), (6, "FunctionalAssociationObject2")] },
    EnumDef { name: "EntityAssociationAssociationType", width: 1, default: 0, values: &[(0, "Other"), (1, "TargetEntity"), (2, "TargetLocation"), (3, "HomeBaseLocation"), (4, "CAPPointLocation"), (5, "FlightLeader"), (6, "FlightMember"), (7, "IPPoint"), (8, "RendezvousPoint"), (9, "OnStationLocation"), (10, "LandingZoneLocation"), (11, "DownedPilot"), (12, "TankerEntitythatIsCurrentlyRefuelingtheTransferredEntity"), (13, "TankerEntitytheTransferredEntityIsHeadedtowardstoRefuel"), (14, "EntityHeadedtowardstoJoinUpWith")] },
    EnumDef { name: "EntityAssociationGroupMemberType", width: 1, default: 0, values: &[(0, "NotPartofaGroup"), (1, "GroupLeader"), (2, "GroupMember"), (3, "FormationLeader"), (4, "FormationMember"), (5, "ConvoyLeader"), (6, "ConvoyMember")] },
    EnumDef { name: "EntityAssociationPhysicalAssociationType", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "TowedinAir"), (2, "TowedonLand"), (3, "TowedonWaterSurface"), (4, "TowedUnderwater"), (5, "MountedAttached"), (6, "MountedUnattachedandUnsupported"), (7, "MountedUnattachedandSupported"), (8, "TowedinAirCenterHook"), (9, "TowedinAirForwardHook"), (10, "TowedinAirAftHook"), (11, "TowedinAirTandemHookForeAndAft"), (12, "TowedinAirMismanagedTandemForeAndCenter"), (13, "TowedinAirMismanagedTandemCenterAndAft"), (14, "TowedinAirAllHooks"), (15, "Hoisted"), (30, "RestrainedtoaLifeform"), (31, "RestrainedtoaPlatform"), (32, "RestrainedtoanObject"), (61, "RefuelingOperation"), (62, "SearchandRescueBasket"), (63, "SearchandRescueRescueCollar"), (64, "EngagementObject2isBeingEngaged"), (65, "ReturnToBaseObject2istheDestinationObject"), (90, "LinebetweenCommunicationTowers"), (91, "LineBetweenPowerTowers"), (92, "Indoors"), (93, "TopSurface")] },
    EnumDef { name: "EntityAssociationPhysicalConnectionType", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "AttachedDirectlytoSurface"), (2, "CableWire"), (3, "Rope"), (4, "Chain"), (5, "PowerLine"), (6, "TelephoneLine"), (7, "CableLine"), (8, "RefuelingDrogue"), (9, "RefuelingBoom"), (10, "Handcuffs"), (11, "InContactWith"), (12, "FastRope")] },
    EnumDef { name: "EntityCapabilities", width: 4, default: 0, values: &[(0, "LandPlatformEntityCapabilities"), (1, "AirPlatformEntityCapabilities"), (2, "SurfacePlatformEntityCapabilities"), (3, "SubsurfacePlatformEntityCapabilities"), (4, "SpacePlatformEntityCapabilities"), (5, "MunitionEntityCapabilities"), (6, "LifeFormsEntityCapabilities"), (7, "EnvironmentalEntityCapabilities"), (8, "CulturalFeatureEntityCapabilities"), (9, "SupplyEntityCapabilities"), (10, "RadioEntityCapabilities"), (11, "ExpendableEntityCapabilities"), (12, "SensorEmitterEntityCapabilities")] },
    EnumDef { name: "EntityKind", width: 1, default: 0, values: &[(0, "Other"), (1, "Platform"), (2, "Munition"), (3, "LifeForm"), (4, "Environmental"), (5, "CulturalFeature"), (6, "Supply"), (7, "Radio"), (8, "Expendable"), (9, "SensorEmitter")] },
    EnumDef { name: "EntityMarkingCharacterSet", width: 1, default: 0, values: &[(0, "Unused"), (1, "ASCII"), (2, "USArmyMarking"), (3, "DigitChevron")] },
    EnumDef { name: "EntityVPRecordChangeIndicator", width: 1, default: 0, values: &[(0, "InitialReportorNoChangeSinceLastIssuance"), (1, "ChangeSinceLastIssuance")] },
    EnumDef { name: "EnvironmentRecordTypeGroups", width: 1, default: 0, values: &[(0, "State"), (1, "Geometry")] },
    EnumDef { name: "EnvironmentalProcessModelType", width: 1, default: 0, values: &[(0, "NoStatement")] },
    EnumDef { name: "EnvironmentalProcessRecordType", width: 4, default: 256, values: &[(256, "COMBICState"), (259, "FlareState"), (65536, "BoundingSphereRecord"), (327680, "UniformGeometryRecord"), (655360, "PointRecord1"), (786432, "LineRecord1"), (851968, "SphereRecord1"), (1048576, "EllipsoidRecord1"), (3145728, "ConeRecord1"), (5242880, "RectangularVolumeRecord1"), (83886080, "RectangularVolumeRecord3"), (167772160, "PointRecord2"), (201326592, "LineRecord2"), (218103808, "SphereRecord2"), (268435456, "EllipsoidRecord2"), (805306368, "ConeRecord2"), (1342177280, "RectangularVolumeRecord2"), (1610612736, "GaussianPlumeRecord"), (1879048192, "GaussianPuffRecord")] },
    EnumDef { name: "EnvironmentalSubcategory", width: 1, default: 0, values: &[(0, "Other"), (20, "VerySmall"), (40, "Small"), (60, "Medium"), (80, "Large"), (100, "VeryLarge")] },
    EnumDef { name: "EventType", width: 4, default: 0, values: &[(0, "Other"), (2, "RanOutOfAmmunition"), (3, "KilledInAction"), (4, "Damage"), (5, "MobilityDisabled"), (6, "FireDisabled"), (7, "RanOutOfFuel"), (8, "EntityInitialization"), (9, "RequestForIndirectFireOrCASMission"), (10, "IndirectFireOrCASFire"), (11, "MinefieldEntry"), (12, "MinefieldDetonation"), (13, "VehicleMasterPowerOn"), (14, "VehicleMasterPowerOff"), (15, "AggregateStateChangeRequested"), (16, "PreventCollisionDetonation"), (17, "OwnershipReport"), (18, "RadarPerception"), (19, "Detect")] },
    EnumDef { name: "ExpendableAirCategory", width: 1, default: 0, values: &[(0, "Other"), (1, "Chaff"), (2, "Flare"), (3, "CombinedChaffandFlare"), (4, "ActiveEmitter"), (5, "PassiveDecoy"), (6, "WingedDecoy"), (7, "SignalIlluminationFlare"), (8, "SmokeGenerator"), (12, "CombinedFlareandSmokeGenerator"), (13, "SARNightLight"), (14, "SARBuoy")] },
    EnumDef { name: "ExpendableSubsurfaceCategory", width: 1, default: 0, values: &[(0, "Other"), (4, "Activeemitter"), (5, "Passivedecoy"), (7, "Signal"), (9, "NoiseMakerDecoy"), (10, "BubbleMakerDecoy"), (11, "MultiModeDecoy")] },
    EnumDef { name: "ExpendableSurfaceCategory", width: 1, default: 0, values: &[(0, "Other"), (2, "Flare"), (4, "ActiveEmitter"), (5, "PassiveDecoy"), (8, "SmokeGenerator"), (12, "CombinedFlareandSmokeGenerator"), (14, "SARBuoy")] },
    EnumDef { name: "ExplosiveMaterialCategories", width: 2, default: 0, values: &[(0, "NoStatement"), (10, "AVGAS"), (11, "JetFuel"), (12, "JP4"), (13, "JP5"), (14, "JP7"), (15, "JP8"), (16, "JP10MissileFuel"), (17, "JPTS"), (18, "JetA"), (19, "JetA1"), (20, "JetB"), (21, "JetBiofuel"), (151, "GasolinePetrolUnspecifiedOctane"), (152, "DieselFuelUnspecifiedGrade"), (153, "Ethanol"), (154, "E85Ethanol"), (155, "FuelOil"), (156, "Kerosene"), (157, "CrudeOil"), (158, "LightCrudeOil"), (159, "LiquidPetroleumGas"), (160, "RP1RocketFuel"), (161, "LH2RocketFuel"), (162, "LOXRocketFuel"), (164, "Alcohol"), (166, "HydrogenLiquid"), (301, "Nitroglycerin"), (302, "ANFO"), (451, "Dynamite"), (452, "TNT"), (453, "RDX"), (454, "PETN"), (455, "HMX"), (456, "C4"), (457, "CompositionC4"), (601, "NaturalGas"), (602, "Butane"), (603, "Propane"), (604, "Helium"), (605, "HydrogenGaseous"), (801, "DustUnspecifiedType"), (802, "GrainDust"), (803, "FlourDust"), (804, "SugarDust")] },
    EnumDef { name: "ExplosiveMaterialGroups", width: 1, default: 0, values: &[(0, "General"), (1, "LiquidAviationMissileFuels"), (2, "LiquidOtherFuels"), (3, "LiquidExplosiveMaterial"), (4, "Solid"), (5, "Gaseous"), (6, "DustMaterial")] },
    EnumDef { name: "FireTypeIndicator", width: 1, default: 0, values: &[(0, "Munition"), (1, "Expendable")] },
    EnumDef { name: "FlareSmokeColor", width: 1, default: 0, values: &[(0, "White"), (1, "Red"), (2, "Green"), (3, "IR")] },
    EnumDef { name: "FlareSmokeStatus", width: 1, default: 0, values: &[(0, "NotIgnited"), (1, "Burning"), (2, "BurnedOut")] },
    EnumDef { name: "ForceId", width: 1, default: 0, values: &[(0, "Other"), (1, "Friendly"), (2, "Opposing"), (3, "Neutral"), (4, "Friendly2"), (5, "Opposing2"), (6, "Neutral2"), (7, "Friendly3"), (8, "Opposing3"), (9, "Neutral3"), (10, "Friendly4"), (11, "Opposing4"), (12, "Neutral4"), (13, "Friendly5"), (14, "Opposing5"), (15, "Neutral5"), (16, "Friendly6"), (17, "Opposing6"), (18, "Neutral6"), (19, "Friendly7"), (20, "Opposing7"), (21, "Neutral7"), (22, "Friendly8"), (23, "Opposing8"), (24, "Neutral8"), (25, "Friendly9"), (26, "Opposing9"), (27, "Neutral9"), (28, "Friendly10"), (29, "Opposing10"), (30, "Neutral10")] },
    EnumDef { name: "FormatType", width: 1, default: 0, values: &[(0, "NoData"), (4, "IdentityFormat"), (5, "SurfaceFormat5meterRNP"), (6, "SurfaceFormat100meterRNP"), (7, "AirborneFormat5meterRNP25footBarometricAltitude"), (8, "AirborneFormat100meterRNP25footBarometricAltitude"), (9, "AirborneFormat0_25nmiRNP25footBarometricAltitude"), (10, "AirborneFormat1_0nmiRNP25footBarometricAltitude"), (11, "AirborneFormat5meterRNP100footBarometricAltitude"), (12, "AirborneFormat100meterRNP100footBarometricAltitude"), (13, "AirborneFormat0_25nmiRNP100footBarometricAltitude"), (14, "AirborneFormat1_0nmiRNP100footBarometricAltitude"), (15, "AirborneFormat5meterRNPGPSHeight"), (16, "AirborneFormat100meterRNPGPSHeight")] },
    EnumDef { name: "FrenchWeaponSubcategories", width: 1, default: 1, values: &[(1, "ACLSTRIM"), (2, "Mistralmissile"), (3, "MilanATmissile"), (4, "LRACF189mmATrocketlauncher"), (5, "FAMASrifle"), (6, "AA52machinegun"), (7, "_58mmriflegrenade"), (8, "FRF1sniperrifle")] },
    EnumDef { name: "FuelLocation", width: 1, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "FuelMeasurementUnits", width: 1, default: 0, values: &[(0, "Other"), (1, "Liter"), (2, "Kilogram")] },
    EnumDef { name: "GridAxisDescriptorAxisType", width: 1, default: 0, values: &[(0, "RegularAxis"), (1, "IrregularAxis")] },
    EnumDef { name: "GriddedDataConstantGrid", width: 1, default: 0, values: &[(0, "Constantgrid"), (1, "Updatedgrid")] },
    EnumDef { name: "GriddedDataCoordinateSystem", width: 2, default: 0, values: &[(0, "RightHandedCartesian"), (1, "LeftHandedCartesian"), (2, "LatitudeLongitudeHeight"), (3, "LatitudeLongitudeDepth")] },
    EnumDef { name: "GriddedDataDataRepresentation", width: 2, default: 0, values: &[(0, "Type0"), (1, "Type1"), (2, "Type2")] },
    EnumDef { name: "GriddedDataSampleType", width: 2, default: 0, values: &[(0, "NotSpecified")] },
    EnumDef { name: "HighDensityTrackJam", width: 1, default: 0, values: &[(0, "NotSelected"), (1, "Selected")] },
    EnumDef { name: "HighFidelityHAVEQUICKTODTransmitIndicator", width: 1, default: 0, values: &[(0, "NoTODIsBeingTransmitted"), (1, "TODTransmissioninProgress")] },
    EnumDef { name: "IFFAlternateMode4ChallengeReply", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Valid"), (2, "Invalid"), (3, "Noresponse"), (4, "UnabletoVerify")] },
    EnumDef { name: "IFFApplicableModes", width: 1, default: 0, values: &[(0, "NoApplicableModesData"), (1, "AllModes")] },
    EnumDef { name: "IFFDataRecordAvailable", width: 1, default: 0, values: &[(0, "ComputeLocally"), (1, "IFFDataRecordAvailable")] },
    EnumDef { name: "IFFLayerSpecificInformation", width: 1, default: 0, values: &[(0, "NoLayerSpecificInformationIsPresent")] },
    EnumDef { name: "IFFSimulationMode", width: 1, default: 0, values: &[(0, "Regeneration"), (1, "Interactive")] },
    EnumDef { name: "IFFSystemMode", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Off"), (2, "Standby"), (3, "Normal"), (4, "Emergency"), (5, "LoworLowSensitivity")] },
    EnumDef { name: "IFFSystemName", width: 2, default: 0, values: &[(0, "NotUsed"), (1, "GenericMarkX"), (2, "GenericMarkXII"), (3, "GenericATCRBS"), (4, "GenericSoviet"), (5, "GenericModeS"), (6, "GenericMarkXXIIATCRBS"), (7, "GenericMarkXXIIATCRBSModeS"), (8, "ARI5954"), (9, "ARI5983"), (10, "GenericRRB"), (11, "GenericMarkXIIA"), (12, "GenericMode5"), (13, "GenericMarkXIIACombinedInterrogatorTransponder"), (14, "GenericMarkXIICombinedInterrogatorTransponder"), (15, "GenericTCASIACASITransceiver"), (16, "GenericTCASIIACASIITransceiver"), (17, "GenericMarkXA"), (18, "GenericMarkXSIF")] },
    EnumDef { name: "IFFSystemType", width: 2, default: 0, values: &[(0, "NotUsed"), (1, "MarkXXIIATCRBSTransponder"), (2, "MarkXXIIATCRBSInterrogator"), (3, "SovietTransponder"), (4, "SovietInterrogator"), (5, "RRBTransponder"), (6, "MarkXIIAInterrogator"), (7, "Mode5Interrogator"), (8, "ModeSInterrogator"), (9, "MarkXIIATransponder"), (10, "Mode5Transponder"), (11, "ModeSTransponder"), (12, "MarkXIIACombinedInterrogatorTransponder"), (13, "MarkXIICombinedInterrogatorTransponder"), (14, "TCASACASTransceiver")] },
    EnumDef { name: "IFFSystemType1OperationalParameter1", width: 1, default: 0, values: &[(0, "NoOperationalParameter1Data")] },
    EnumDef { name: "IFFSystemType1OperationalParameter2", width: 1, default: 0, values: &[(0, "NoOperationalParameter2Data")] },
    EnumDef { name: "IOActionIOActionPhase", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "StartAttackProfile"), (2, "EndAttackProfile"), (3, "ContinueAttackProfilewithChanges"), (4, "StartAttackEffects"), (5, "EndAttackedEffects"), (6, "ContinueAttackEffectswithChanges")] },
    EnumDef { name: "IOActionIOActionType", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "IOAttackProfileData"), (2, "IOAttackComputedEffects"), (3, "IntentBasedEW"), (4, "IntentBasedEWComputedEffects")] },
    EnumDef { name: "IOActionIOSimulationSource", width: 2, default: 0, values: &[(0, "NoStatement")] },
    EnumDef { name: "IOActionIOWarfareType", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "ElectronicWarfare"), (2, "ComputerNetworkOperations"), (3, "PsychologicalOperations"), (4, "MilitaryDeception"), (5, "OperationsSecurity"), (6, "PhysicalAttack")] },
    EnumDef { name: "IOCommsNodeRecordCommsNodeType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "SenderNodeID"), (2, "ReceiverNodeID"), (3, "SenderReceiverNodeID")] },
    EnumDef { name: "IOEffectsRecordIOEffect", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Denial"), (2, "Degradation"), (3, "Disruption"), (255, "TerminateEffect")] },
    EnumDef { name: "IOEffectsRecordIOLinkType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "LogicalLink"), (2, "PhysicalNode"), (3, "PhysicalLink")] },
    EnumDef { name: "IOEffectsRecordIOProcess", width: 1, default: 0, values: &[(0, "NoStatement")] },
    EnumDef { name: "IOEffectsRecordIOStatus", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "EffectonSender"), (2, "EffectonReceiver"), (3, "EffectonSenderandReceiver"), (4, "EffectonMessage"), (5, "EffectonSenderandMessage"), (6, "EffectonReceiverandMessage"), (7, "EffectonSenderReceiverandMessage")] },
    EnumDef { name: "IOReportIOReportType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "InitialReport"), (2, "UpdateReport"), (3, "FinalReport")] },
    EnumDef { name: "ISLSAntennaType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "MonopulseAntenna")] },
    EnumDef { name: "IntercomAttachedIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Unattached"), (2, "Attached")] },
    EnumDef { name: "IntercomControlCommand", width: 1, default: 0, values: &[(0, "NoCommand"), (1, "Status"), (2, "Connect"), (3, "Disconnect"), (4, "Reset"), (5, "On"), (6, "Off")] },
    EnumDef { name: "IntercomControlCommunicationsClass", width: 1, default: 0, values: &[(0, "SimulatedCommunicationsChannel"), (1, "SimulationSupportCommunicationsChannel")] },
    EnumDef { name: "IntercomControlCommunicationsType", width: 1, default: 0, values: &[(0, "Reserved"), (1, "ConnectionFDX"), (2, "ConnectionHDXDestinationisReceiveOnly"), (3, "ConnectionHDXDestinationisTransmitOnly"), (4, "ConnectionHDX")] },
    EnumDef { name: "IntercomControlControlType", width: 1, default: 0, values: &[(0, "Reserved"), (1, "Status"), (2, "RequestAcknowledgeRequired"), (3, "RequestNoAcknowledge"), (4, "AckRequestGranted"), (5, "NackRequestDenied")] },
    EnumDef { name: "IntercomControlDestinationLineStateCommand", width: 1, default: 0, values: &[(0, "None"), (1, "SetLineStateTransmitting"), (2, "SetLineStateNotTransmitting"), (3, "ReturntoLocalLineStateControl")] },
    EnumDef { name: "IntercomControlRecordType", width: 2, default: 1, values: &[(1, "SpecificDestinationrecord"), (2, "GroupDestinationrecord"), (3, "GroupAssignmentrecord")] },
    EnumDef { name: "IntercomControlTransmitLineState", width: 1, default: 0, values: &[(0, "TransmitLineStatenotapplicable"), (1, "NotTransmitting"), (2, "Transmitting")] },
    EnumDef { name: "IsGroupOfGroupedEntityCategory", width: 1, default: 0, values: &[(0, "Undefined"), (1, "BasicGroundCombatVehicle"), (2, "EnhancedGroundCombatVehicle"), (3, "BasicGroundCombatSoldier"), (4, "EnhancedGroundCombatSoldier"), (5, "BasicRotorWingAircraft"), (6, "EnhancedRotorWingAircraft"), (7, "BasicFixedWingAircraft"), (8, "EnhancedFixedWingAircraft"), (9, "GroundLogisticsVehicle")] },
    EnumDef { name: "IsGroupOfRestStatus", width: 1, default: 0, values: &[(0, "Notrested"), (1, "Hassleptanaverageof1hourperdayinthelastthreedays_"), (2, "Hassleptanaverageof2hoursperdayinthelastthreedays_"), (3, "Hassleptanaverageof3hoursperdayinthelastthreedays_"), (4, "Hassleptanaverageof4hoursperdayinthelastthreedays_"), (5, "Hassleptanaverageof5hoursperdayinthelastthreedays_"), (6, "Hassleptanaverageof6hoursperdayinthelastthreedays_"), (7, "Hassleptanaverageof7hoursperdayinthelastthreedays_"), (8, "Fullyrested")] },
    EnumDef { name: "IsPartOfNature", width: 2, default: 0, values: &[(0, "Other"), (1, "Hostfireablemunition"), (2, "Munitioncarriedascargo"), (3, "Fuelcarriedascargo"), (4, "Gunmountattachedtohost"), (5, "Computergeneratedforcescarriedascargo"), (6, "Vehiclecarriedascargo"), (7, "Emittermountedonhost"), (8, "Mobilecommandandcontrolentitycarriedaboardhost"), (9, "Entitystationedatpositionwithrespecttohost"), (10, "Teammemberinformationwith")] },
    EnumDef { name: "IsPartOfPosition", width: 2, default: 0, values: &[(0, "Other"), (1, "Ontopof"), (2, "Insideof")] },
    EnumDef { name: "IsPartOfStationName", width: 2, default: 0, values: &[(0, "Other"), (1, "AircraftWingstation"), (2, "ShipsForwardGunmountStarboard"), (3, "ShipsForwardGunmountPort"), (4, "ShipsForwardGunmountCenterline"), (5, "ShipsAftGunmountStarboard"), (6, "ShipsAftGunmountPort"), (7, "ShipsAftGunmountCenterline"), (8, "ForwardTorpedoTube"), (9, "AftTorpedoTube"), (10, "BombBay"), (11, "CargoBay"), (12, "TruckBed"), (13, "TrailerBed"), (14, "WellDeck"), (15, "OnStationRangeandBearing"), (16, "OnStationxyz"), (17, "AirtoAirRefuelingBoom"), (18, "AerialRefuelingReceptacle"), (19, "PortSideRefuelingDrogue"), (20, "StarboardSideRefuelingDrogue"), (21, "CenterRefuelingDrogue"), (22, "AirRefuelingProbe")] },
    EnumDef { name: "IslandSubcategory", width: 2, default: 0, values: &[(0, "Other"), (1, "Islands10002499km2"), (2, "Islands25004999km2"), (3, "Islands50009999km2"), (4, "Islands1000024999km2"), (5, "Islands2500099999km2"), (6, "Islands100000km2andGreater")] },
    EnumDef { name: "JTIDSMIDSModulationParametersSynchronizationState", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "InitialNetEntry"), (2, "CoarseSynchronization"), (3, "FineSynchronization"), (4, "SynchronizationMaintenance")] },
    EnumDef { name: "JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode", width: 1, default: 1, values: &[(1, "NTR"), (2, "JTIDSUnitParticipant")] },
    EnumDef { name: "JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode", width: 1, default: 0, values: &[(0, "None"), (1, "NetPositionReference"), (2, "PrimaryNavigationController"), (3, "SecondaryNavigationController")] },
    EnumDef { name: "LVCIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Live"), (2, "Virtual"), (3, "Constructive")] },
    EnumDef { name: "LandDomainCategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Tank"), (2, "ArmoredFightingVehicle"), (3, "ArmoredUtilityVehicle"), (4, "SelfPropelledArtillery"), (5, "TowedArtillery"), (6, "SmallWheeledUtilityVehicle"), (7, "LargeWheeledUtilityVehicle"), (8, "SmallTrackedUtilityVehicle"), (9, "LargeTrackedUtilityVehicle"), (10, "Mortar"), (11, "MinePlow"), (12, "MineRake"), (13, "MineRoller"), (14, "CargoTrailer"), (15, "FuelTrailer"), (16, "GeneratorTrailer"), (17, "WaterTrailer"), (18, "EngineerEquipment"), (19, "HeavyEquipmentTransportTrailer"), (20, "MaintenanceEquipmentTrailer"), (21, "Limber"), (22, "ChemicalDecontaminationTrailer"), (23, "WarningSystem"), (24, "TrainEngine"), (25, "TrainCar"), (26, "TrainCaboose"), (27, "CivilianVehicle"), (28, "AirDefenseMissileDefenseUnitEquipment"), (29, "C3ISystem"), (30, "OperationsFacility"), (31, "IntelligenceFacility"), (32, "SurveillanceFacility"), (33, "CommunicationsFacility"), (34, "CommandFacility"), (35, "C4IFacility"), (36, "ControlFacility"), (37, "FireControlFacility"), (38, "MissileDefenseFacility"), (39, "FieldCommandPost"), (40, "ObservationPost"), (41, "MineFlail"), (50, "Unmanned"), (80, "Motorcycle"), (81, "Car"), (82, "Bus"), (83, "SingleUnitCargoTruck"), (84, "SingleUnitUtilityEmergencyTruck"), (85, "MultipleUnitCargoTruck"), (86, "MultipleUnitUtilityEmergencyTruck"), (87, "ConstructionSpecialtyVehicle"), (88, "FarmSpecialtyVehicle"), (89, "Trailer"), (90, "Recreational"), (91, "NonMotorized"), (92, "Trains"), (93, "UtilityEmergencyCar")] },
    EnumDef { name: "LeafCoverage", width: 1, default: 0, values: &[(0, "Normal"), (1, "Bare")] },
    EnumDef { name: "Level2SquitterStatus", width: 1, default: 0, values: &[(0, "Disabled"), (1, "Enabled")] },
    EnumDef { name: "LifeFormAirCategories", width: 1, default: 200, values: &[(200, "Bird"), (201, "Insect"), (202, "Mammal")] },
    EnumDef { name: "LifeFormCategoriesAfghanistan", width: 1, default: 11, values: &[(11, "AfghanNationalArmy"), (13, "AfghanAirForce"), (51, "NationalDirectorateofSecurity"), (52, "AfghanNationalPolice"), (53, "AfghanBorderPolice"), (54, "AfghanNationalCivilOrderPolice"), (55, "AfghanPublicProtectionForce"), (70, "NonMilitaryNationalGovernmentAgencies"), (101, "TerroristCombatant"), (120, "HumanitarianOrganizations"), (121, "RedCrescent"), (130, "Civilian"), (133, "Press")] },
    EnumDef { name: "LifeFormCategoriesUS", width: 1, default: 11, values: &[(11, "USArmy"), (12, "USMarineCorps"), (13, "USAirForce"), (14, "USNavy"), (15, "USCoastGuard"), (31, "Rangers"), (32, "ARSOF"), (33, "ForceReconnaissance"), (34, "NavySEAL"), (35, "AFSOF"), (36, "DeltaForce"), (51, "FederalBureauofInvestigation"), (52, "CentralIntelligenceAgency"), (53, "DepartmentofHomelandSecurity"), (54, "BureauofAlcoholTobaccoFirearmsandExplosives"), (55, "USSecretService"), (56, "USMarshal"), (71, "StatePolice"), (72, "CountySheriffPolice"), (73, "MunicipalPolice"), (124, "RedCross")] },
    EnumDef { name: "LifeFormExtraPersonalData", width: 1, default: 0, values: &[(0, "NotSpecifiedMale"), (1, "AsianMale"), (2, "PacificIslanderMale"), (3, "BlackMale"), (4, "EastAsianMale"), (5, "HispanicMale"), (6, "WhiteMale"), (7, "ArabMale"), (8, "HomogenousCountryCodeMale"), (9, "IndigenousCountryCodeMale"), (10, "InfantMale"), (20, "ToddlerMale"), (30, "ChildMale"), (40, "AdolescentMale"), (50, "TeenagerMale"), (60, "YoungAdultMale"), (70, "AdultMale"), (80, "SeniorAdultMale"), (90, "ElderlyMale"), (100, "Female"), (101, "AsianFemale"), (102, "PacificIslanderFemale"), (103, "BlackFemale"), (104, "EastAsianFemale"), (105, "HispanicFemale"), (106, "WhiteFemale"), (107, "ArabFemale"), (108, "HomogenousCountryCodeFemale"), (109, "IndigenousCountryCodeFemale"), (110, "InfantFemale"), (120, "ToddlerFemale"), (130, "ChildFemale"), (140, "AdolescentFemale"), (150, "TeenagerFemale"), (160, "YoungAdultFemale"), (170, "AdultFemale"), (180, "SeniorAdultFemale"), (190, "ElderlyFemale")] },
    EnumDef { name: "LifeFormHumanSpecificAntiMaterielRifles", width: 1, default: 0, values: &[(0, "Other"), (10, "_12_7mmAW50"), (11, "_12_7mmAW50F")] },
    EnumDef { name: "LifeFormHumanSpecificAntiTankMissiles", width: 1, default: 0, values: &[(0, "Other"), (30, "_120mmType64MATKAM3"), (31, "_153mmType79JyuMATKAM9"), (32, "_120mmType87ChuMAT"), (33, "_140mmType01LMAT"), (58, "_140mmM47Dragon"), (59, "_140mmSaeghe12"), (60, "_127mmFGM148Javelin"), (63, "_139mmFGM172SRAW"), (64, "_139mmFGM172BSRAWMPV"), (68, "_152mmBGM71TOW"), (69, "_152mmOrevTOWII"), (75, "_120mmVickersVigilantClevite"), (80, "_110mmBantam"), (81, "_150mmRBS56BILL1"), (82, "_150mmRBS562BILL2"), (85, "_130mmSpikeSR"), (86, "_130mmSpikeMR"), (87, "_130mmSpikeLR"), (95, "_60mmMosquito"), (98, "_160mmSS_10"), (100, "_103mmMILAN"), (101, "_115mmMILAN2"), (102, "_115mmMILAN2T"), (103, "_115mmMILAN3"), (104, "_115mmMILANER"), (105, "_136mmERYX"), (107, "_152mmEntac"), (110, "_125mmRAAD"), (111, "_125mmIRAADT"), (112, "_152mmToophan"), (113, "_152mmToophan2"), (114, "_152mmToophan5"), (120, "_136mmBumbar"), (125, "_130mmShershenPK2"), (126, "_152mmShershenQP2B"), (130, "_130mmMectronMSS1_2"), (140, "_120mmHJ8"), (141, "_120mmHJ8A"), (142, "_120mmHJ8B"), (143, "_120mmHJ8C"), (144, "_120mmHJ8D"), (145, "_120mmHJ8E"), (146, "_120mmHJ8F"), (147, "_120mmHJ8FAE"), (148, "_120mmHJ8L"), (149, "_120mmHJ8H"), (150, "_120mmHJ8S"), (151, "_120mmBaktarShikan"), (152, "_120mmHJ11"), (153, "_152mmHJ9A"), (154, "_135mmHJ12RedArrow"), (155, "_125mmHJ73MCLOS"), (156, "_125mmHJ73BSACLOS"), (157, "_125mmHJ73CSACLOSERA"), (170, "_125mmAT3SaggerA9M14Malyutka"), (171, "_125mmAT3BSaggerB9M14MMalyutkaM"), (172, "_125mmAT3CSaggerC9M14PMalyutkaP"), (173, "_125mmAT3DSaggerD9M142Malyutka2"), (174, "_125mmSusongPo"), (175, "_125mmAT3CPOLK"), (176, "_125mmKunWu1"), (177, "_125mmMaliutkaM2T"), (178, "_120mmAT4ASpigotA9M111Fagot"), (179, "_120mmAT4BSpigotB9M1112Fagot"), (180, "_120mmAT4CSpigotC9M111MFaktoriya"), (181, "_135mmAT5ASpandrel9M113Kronkurs"), (182, "_135mmAT5BSpandrel9M113MKronkursM"), (183, "_135mmTosan"), (184, "_94mmAT7Saxhorn9K115Metis"), (185, "_130mmAT13Saxhorn29K1152MetisM"), (186, "_152mmAT14Spriggan9M133Kornet"), (187, "_152mmDehlavie"), (200, "_102mmMathogo")] },
    EnumDef { name: "LifeFormHumanSpecificAntiTankRockets", width: 1, default: 0, values: &[(0, "Other"), (10, "_82mmB300"), (11, "_82mmShipon"), (12, "_83mmMK153Mod0SMAW"), (20, "_66mmM72LAW"), (21, "_66mmM72A1LAW"), (22, "_66mmM72A2LAW"), (23, "_66mmM72A3LAW"), (24, "_66mmM72A4LAW"), (25, "_66mmM72A5LAW"), (26, "_66mmM72A6LAW"), (27, "_66mmM72A7LAW"), (28, "_66mmM72E8LAW"), (29, "_66mmM72E9LAW"), (30, "_66mmM72E10LAW"), (31, "_66mmM72ASLAW"), (35, "_94mmLAW80"), (40, "_60mmM1Bazooka"), (41, "_60mmM1A1Bazooka"), (42, "_60mmM9Bazooka"), (43, "_60mmM9A1Bazooka"), (44, "_89mmM20SuperBazooka"), (45, "_89mmM20A1SuperBazooka"), (46, "_89mmM20B1SuperBazooka"), (47, "_89mmM20A1B1SuperBazooka"), (48, "_89mmM25ThreeShotBazooka"), (49, "_89mmInstalazaM65"), (50, "_90mmInstalazaC90"), (51, "_90mmC90CR"), (52, "_90mmC90CRAM"), (53, "_90mmC90CRBK"), (54, "_90mmC90CRIN"), (60, "_60mmPzF3"), (61, "_60mmPzF3IT"), (62, "_60mmPzF3Bunkerfaust"), (65, "_44mmPzF44"), (70, "_30mmPanzerfaust30"), (71, "_50mmPanzerfaust60"), (72, "_60mmPanzerfaust100"), (73, "_60mmPanzerfaust150"), (75, "_88mmPanzerschreckRPzB"), (80, "_83mmRL83Blindicide"), (81, "_100mmRL100Blindicide"), (85, "_90mmM79Osa"), (86, "_64mmM80Zolja"), (90, "_67mmArmburstCrossbow"), (93, "_40mmType69RPG"), (95, "_89mmPIAT"), (100, "_40mmRPG2"), (101, "_64mmRPG18Mukha"), (102, "_72_5mmRPG22Netto"), (103, "_72_5mmRPG26Aglen"), (104, "_105mmRPG29Vampir"), (105, "_105mmRPG30Kryuk"), (106, "_105mmRPG32Nashshab"), (110, "_40mmRPG7"), (111, "_40mmPSRL1"), (112, "_40mmGS777PSRL2"), (120, "_68mmRPG76Komar"), (125, "_120mmSEPDard120"), (128, "_58mmWASP58"), (130, "_73mmLRAC7350"), (131, "_89mmLRAC89F1STRIM"), (135, "_90mmMATADOR"), (136, "_90mmMATADORMP"), (137, "_90mmMATADORWB"), (138, "_90mmMATADORAS"), (140, "_78mmMARAAntiTankRocketLauncher"), (145, "_120mmType98PF98")] },
    EnumDef { name: "LifeFormHumanSpecificAssaultRifles", width: 1, default: 0, values: &[(0, "Other"), (1, "_4_5mmInterdynamicsMKR"), (10, "_5_45mmAK74"), (11, "_5_45mmAKS74"), (12, "_5_45mmAK74M"), (13, "_5_45mmKbkwz_1988Tantal"), (30, "_5_56mmAK101"), (31, "_5_56mmDiemacoC7"), (32, "_5_56mmColtCanadaC8Carbine"), (33, "_5_56mmGIATFAMASG2"), (34, "_5_56mmFNFNC"), (35, "_5_56mmHKG36"), (36, "_5_56mmIMIGalil"), (37, "_5_56mmINSAS"), (38, "_5_56mmDaewooK1"), (39, "_5_56mmDaewooK2"), (40, "_5_56mmM16A1"), (41, "_5_56mmM16A2A3A4"), (42, "_5_56mmColtM4"), (43, "_5_56mmColtM4SpecialOperationsPeculiarModification"), (44, "_5_56mmRugerMini14"), (45, "_5_56mmEnfieldSA80A2"), (46, "_5_56mmPindadSS1V1"), (47, "_5_56mmPindadSS1V2"), (48, "_5_56mmPindadSS1V3"), (49, "_5_56mmSteyrAUGA1"), (50, "_5_56mmT65"), (51, "_5_56mmT91"), (52, "_5_56mmTavorTAR21"), (53, "_5_56mmTypeCQM311"), (54, "_5_56mmDaewooK11"), (55, "_5_56mmAusteyrF88"), (56, "_5_56mmAusteyrF88GLA"), (57, "_5_56mmAusteyrF88SA1"), (58, "_5_56mmAusteyrF88SA2"), (59, "_5_56mmAusteyrF88C"), (60, "_5_56mmAusteyrF88SA1C"), (61, "_5_56mmAusteyrF88SA1LTR"), (62, "_5_56mmAusteyrEF88"), (63, "_5_56mmBushmasterXM15"), (64, "_5_56mmHK416"), (65, "_5_56mmF90"), (66, "_5_56mmF90G"), (67, "_5_56mmF90M"), (68, "_5_56mmF90MG"), (69, "_5_56mmF90CQB"), (70, "_5_56mmMK17SCARL"), (100, "_5_8mmQBZ95"), (110, "_7_62mmAK103"), (111, "_7_62mmAK104"), (112, "_7_62mmAK47"), (113, "_7_62mmAKM"), (114, "_7_62mmAKS47"), (115, "_7_62mmHKG3A3"), (116, "_7_62mmIMIGalil"), (117, "_7_62mmKLS"), (118, "_7_62mmSKS"), (119, "_7_62mmType56"), (120, "_7_62mmType6368"), (121, "_7_62mmType81"), (122, "_7_62mmMK17SCARH"), (240, "_8mmLebelM16")] },
    EnumDef { name: "LifeFormHumanSpecificDroneGuns", width: 1, default: 0, values: &[(0, "Other"), (15, "DroneGunTactical"), (16, "DroneGunMKII")] },
    EnumDef { name: "LifeFormHumanSpecificEquipmentClass", width: 1, default: 1, values: &[(1, "SignalSmoke"), (2, "FlashLight"), (3, "SignalMirror"), (4, "IRStrobe"), (5, "IRIlluminator"), (6, "Spotlight")] },
    EnumDef { name: "LifeFormHumanSpecificFlameRockets", width: 1, default: 0, values: &[(0, "Other"), (20, "_66mmM202Flash"), (30, "_62mmFHJ84"), (40, "_90mmC90CRFIM"), (50, "_93mmRPOAShmel"), (51, "_93mmRPOZShmel"), (52, "_93mmRPODShmel")] },
    EnumDef { name: "LifeFormHumanSpecificFlameThrowers", width: 1, default: 0, values: &[(0, "Other"), (10, "Handflammpatrone"), (11, "FmW41"), (20, "M1A1"), (21, "M2A17"), (22, "M9A17"), (30, "LPO50"), (35, "KPattern"), (36, "PortableNo2AckPack"), (37, "Marsden"), (38, "Harvey"), (45, "ROKS2"), (46, "ROKS3"), (50, "Type93"), (51, "Type100")] },
    EnumDef { name: "LifeFormHumanSpecificGrenadeLaunchers", width: 1, default: 0, values: &[(0, "Other"), (1, "_40x46mmArsenalUGGLM1"), (2, "_40x46mmArsenalMSGL"), (3, "_40mmVOGArsenalMSGL"), (4, "_40x46mmArsenalUBGLM16"), (5, "_40x46mmArsenalUBGLM8"), (6, "_40x46mmArsenalUBGLM7"), (10, "_30mmBS1Tishina"), (11, "_40mmBTS203"), (12, "_40mmIndumilIMC40"), (20, "_40mmVOGBG15"), (21, "_40mmVOGGP25Kostoyor"), (22, "_40mmVOGGP30Obuvka"), (23, "_40mmVOGGP34"), (24, "_40mmVOGRGM40Kastet"), (25, "_40mmVOGRG6"), (30, "_40x46mmM79"), (31, "_40x46mmM203"), (32, "_40x36mmM320"), (35, "_40x46mmCIS40GL"), (36, "_40x46mmEAGLEGL"), (37, "_40x46mmHKAG36"), (38, "_40x46mmHKAGCGLM"), (39, "_40x46mmHK69A1"), (40, "_40x46mmBerettaGLX160"), (41, "_40x46mmARDEUBGL"), (42, "_40x46mmXML148"), (43, "_40x46mmChinaLakeGL"), (44, "_40x46mmHawkMM1"), (50, "_25x40mmXM25CDTE"), (60, "_37mmMilkor3738LLStopper"), (61, "_40mmMilkor40GL"), (62, "_40mmMilkorMGL"), (65, "_40x47mmPalladwz1974"), (66, "_40x47mmPalladwz1983"), (70, "UGL200CanisterRWGL3"), (80, "_20x30mmSTDaewooK11"), (90, "_35mmType91BreechLoadGL"), (95, "_40x53mmCZW40"), (100, "_45mmDP64"), (105, "_20x42mmNeopupPAW20")] },
    EnumDef { name: "LifeFormHumanSpecificGrenadeLaunchingMachineGun", width: 1, default: 0, values: &[(0, "Other"), (20, "_40x53mmHKGMG"), (25, "_40x53mmMk47Striker"), (26, "_40mmM75"), (27, "_40mmM129"), (28, "_40x46mmXM174"), (29, "_40x46mmMk18Mod0"), (30, "_40x53mmMk19"), (31, "_40x46mmMk20Mod0"), (40, "_30x29mmRAG30SAG30"), (41, "_30x29mmAGS17Plamya"), (42, "_30x29mmAGS30Atlant"), (43, "_40mmVOGAGS40Balkan"), (44, "_40x53mmSBLAG40"), (50, "_40x53mmVektorY3"), (55, "_40x53mmCIS40"), (60, "_40x56mmHowaType96"), (65, "_40x53mmDaewooPrecisionIndustriesK4"), (70, "_25x59mmXM307AdvancedCrewServedWeapon"), (80, "_35x32mmQLZ87")] },
    EnumDef { name: "LifeFormHumanSpecificHandGuns", width: 1, default: 0, values: &[(0, "Other"), (1, "_5_45mmPSM"), (30, "_9mmMK3SLP"), (31, "_9mmBeretta92S92FS"), (32, "_9mmHKUSP"), (33, "_9mmStechkinAPS"), (34, "_9mmMakarovPM"), (35, "_9mmSmithandWessonSD"), (36, "_9mmGlock17"), (37, "_9mmSIGSauerM17"), (38, "_9mmSIGPro"), (39, "_9mmSmithandWessonSW1911"), (40, "_9mmSmithandWesson5900series"), (41, "_45CalM1911"), (50, "_9_07mmRugerGP100"), (60, "_10mmGlock20")] },
    EnumDef { name: "LifeFormHumanSpecificHighPowerRifles", width: 1, default: 0, values: &[(0, "Other"), (10, "_7_62mmM14"), (11, "_7_62mmRemington700"), (12, "_7_62mmSIGSauerSSG2000"), (13, "_7_62mmStonerSR25"), (14, "_7_62mmMosinNagantModel189130"), (15, "_7_62mmHK417"), (16, "_7_62mmHK41716Recce"), (50, "_7_65mmBARM1918"), (51, "_7_65mmM1Garand")] },
    EnumDef { name: "LifeFormHumanSpecificLasersClass", width: 1, default: 1, values: &[(1, "GenericLaserDesignator"), (2, "GenericLaserPointer")] },
    EnumDef { name: "LifeFormHumanSpecificLogisticsEQClass", width: 1, default: 1, values: &[(1, "SlingLoadPendant")] },
    EnumDef { name: "LifeFormHumanSpecificMachineGuns", width: 1, default: 0, values: &[(0, "Other"), (10, "_5_56x45mmXM214MicrogunSixPak"), (11, "_7_62x51mmM134XM196Minigun"), (20, "_5_56x45mmM249FNMinimiSAWLMG"), (21, "_5_56x45mmFNMinimiMk3LMG"), (22, "_7_62x51mmFNMinimi7_62Mk3GPMG"), (25, "_7_62x63mmM1941Johnson"), (26, "_7_62x63mmM1918BAR"), (27, "_7_62x51mmM1919A4Mk21Mod0BrowningMMG"), (28, "_7_62x63mmM1919A6BrowningMMG"), (29, "_7_62x51mmM37BrowningMMG"), (30, "_5_56x45mmAresShrike5_56LMG"), (31, "_5_56x45mmLSATLMG"), (32, "_5_56x45mmCMG1LMG"), (33, "_5_56x45mmCMG2LMG"), (34, "_5_56x45mmStoner63ALMG"), (35, "_5_56x45mmUltimax100LMG"), (36, "_5_56x54mmBerettaAS7090LMG"), (37, "_5_56x45mmCETMEAmeliLMG"), (38, "_5_56x45mmIMINegevLMG"), (39, "_5_56x45mmINSASLMG"), (40, "_5_56x45mmAUGLMG"), (41, "_5_56x45mmAUGHBARLMG"), (43, "_5_56x45mmHKMG4LMG"), (44, "_5_56x45mmHK23GR9LMG"), (46, "_5_56x45mmM27IARSAW"), (47, "_5_56x45mmL86LSW"), (48, "_5_56x45mmDaewooK3LMG"), (49, "_5_56x45mmVectorMiniSSGPMG"), (50, "_7_62x51mmM60GPMG"), (51, "_7_62x51mmM60E3GPMG"), (52, "_7_62x51mmM60E4GPMG"), (53, "_7_62x51mmM60E6GPMG"), (55, "_7_62x51mmMark48GMPG"), (58, "_7_62x51mmM240FNMAG58GPMG"), (59, "_7_62x51mmM240E4M240BGPMG"), (60, "_7_62x51mmM240E1M240DGPMG"), (61, "_7_62x51mmM240GGPMG"), (62, "_7_62x51mmM240E5M240HGPMG"), (63, "_7_62x51mmM240LGPMG"), (65, "_7_62x39mmKk62LMG"), (70, "_7_62x51mmVectorSS77GPMG"), (71, "_7_62x51mmSIGMG7103GPMG"), (72, "_7_62x51mmSterling7_62GMPG"), (73, "_7_62x51mmSumitomoType62GPMG"), (74, "_7_62x51mmDaewooK12GPMG"), (75, "_7_62x51mmMG51GPMG"), (76, "_7_62x51mmRheinmetallMG3"), (77, "_7_62x51mmRheinmetallMG3KWS"), (80, "_7_62x51mmMG5HK121GPMG"), (81, "_7_62x51mmHK21GPMG"), (85, "_7_62x51mmAA52GPMP"), (86, "_7_62x51mmUKM2000GPMG"), (88, "_7_62x54mmUkvz_59GPMG"), (89, "_7_92x57mmMG42GPMG"), (100, "_12_7x99mmM2A1BrowningHMG"), (101, "_12_7x99mmM2HBBrowningHMG"), (102, "_12_7x99mmM2HBQCBBrowningHMG"), (105, "_12_7x99mmM85CHMG"), (108, "_12_7x99mmRheinmetallRMG_50HMG"), (110, "_12_7x99mmHK25HMG"), (112, "_12_7x99mmCIS50MG"), (120, "_5_45x39mmIP2LMG"), (121, "_5_45x39mmNikonovLMG"), (122, "_5_45x39mmM74RPK"), (125, "_7_62x39mmM43RPK"), (126, "_7_62x39mmRPDSAW"), (127, "_7_62x39mmZastavaM72"), (128, "_7_62x39mmType81LMG"), (135, "_7_62x51mmZastavaM77"), (140, "_7_62x54mmPKGPMG"), (141, "_7_62x54mmAEK999GPMP"), (142, "_7_62x54mmPechenegGPMG"), (143, "_7_62x54mmZastavaM84"), (144, "_7_62x54mmType67GPMG"), (145, "_7_62x54mmType80GPMG"), (150, "_12_7x108mmNSVHMG"), (151, "_12_7x108mmKordHMG"), (152, "_12_7x108mmKPD12_7HMG"), (153, "_12_7x108mmZastavaM02CoyotoeHMG"), (154, "_12_7x108mmZastavaM87"), (155, "_12_7x108mmType77HMG"), (156, "_12_7x108mmW85HMG"), (157, "_12_7x108mmType90HMG"), (164, "_5_8x42mmQJY88LMG"), (165, "_5_8x42mmQBB95DBP87LMG"), (166, "_5_56x45mmQBB951LMG")] },
    EnumDef { name: "LifeFormHumanSpecificManPortableAirDefenseSystem", width: 1, default: 0, values: &[(0, "Other"), (1, "_70mmFIM43Redeye"), (2, "_70mmFIM92Stinger"), (10, "_76mmBlowpipe"), (11, "_76mmStarburst"), (12, "_130mmStarstreakHVM"), (15, "_90mmMistral"), (20, "_72mm9K32MStrela2"), (21, "_72mm9K36Strela3"), (22, "_72mm9K38Igla"), (23, "_72mm9K310IglaM"), (24, "_72mm9K333Verba"), (25, "_72mm9K338IglaS"), (26, "_72mm9K32MStrela2M"), (30, "_72mmHN5HongYing5"), (31, "_72mmQW1Vanguard"), (32, "_72mmQW2Vanguard2"), (33, "_90mmQW3"), (34, "_72mmFN6"), (45, "_71mmMisagh1"), (46, "_71mmMisagh2"), (50, "_80mmType91KinSAM"), (55, "_80mmKPSAMShunGung"), (60, "_106mmRBS70")] },
    EnumDef { name: "LifeFormHumanSpecificMortars", width: 1, default: 0, values: &[(0, "Others"), (30, "_60mmM224"), (50, "_81mmF2"), (51, "_81mmL16"), (52, "_81mmM252")] },
    EnumDef { name: "LifeFormHumanSpecificPersonalElectronicsClass", width: 1, default: 1, values: &[(1, "CellPhone")] },
    EnumDef { name: "LifeFormHumanSpecificRecoillessRifles", width: 1, default: 0, values: &[(0, "Other"), (15, "_84mmM136AT4CS"), (20, "_57mmM18RR"), (21, "_75mmM20RR"), (22, "_120mmM28DavyCrockett"), (23, "_155mmM29DavyCrockett"), (24, "_106mmM40RecoillessRifle"), (25, "_82mmM60RR"), (26, "_90mmM67RR"), (30, "_84mmM1CarlGustav"), (31, "_84mmM2CarlGustav"), (32, "_84mmM3CarlGustav"), (33, "_84mmM4CarlGustav"), (35, "_74mmPansarskottm68Miniman"), (40, "_84mmALAC"), (45, "_82mmB10RR"), (46, "_107mmB11RR"), (50, "_80mmBredaFolgore"), (55, "_120mmBATRR"), (60, "_73mmSPG9Kopye"), (65, "_88mmRCL3_45in"), (70, "_90mmPvpj110"), (75, "_50mmJagdfaust"), (80, "_30mmRheinmetallRMK30"), (90, "_88mm55S55Raikka"), (91, "_95mm95S5861"), (95, "_73mmLG40"), (96, "_105mmLG40"), (97, "_105mmLG42")] },
    EnumDef { name: "LifeFormHumanSpecificShotGuns", width: 1, default: 0, values: &[(0, "Other"), (20, "BrowningSuperposedOU"), (21, "BrowningCynergy"), (22, "BrowningAuto5"), (23, "_18_5mmBrowningCitoriOU12Gauge"), (24, "_16_8mmBrowningCitoriOU16Gauge"), (25, "_15_6mmBrowningCitoriOU20Gauge"), (26, "_14mmBrowningCitoriOU28Gauge"), (27, "_10_4mmBrowningCitoriOU_410Bore"), (28, "_18_5mmBrowningDoubleAutomatic12Gauge"), (29, "_18_5mmIthaca3712Gauge"), (30, "_16_8mmIthaca3716Gauge"), (31, "_15_6mmIthaca3720Gauge"), (32, "_14mmIthaca3728Gauge"), (33, "_19_7mmIthacaMag10SA10Gauge"), (34, "_19_7mmMarlinModel5510Gauge"), (35, "_18_5mmMarlinModel5512Gauge"), (36, "_16_8mmMarlinModel5516Gauge"), (37, "_15_6mmMarlinModel5520Gauge"), (38, "_18_5mmMossberg50012Gauge"), (39, "_15_6mmMossberg50020Gauge"), (40, "_10_4mmMossberg500_410Bore"), (41, "_18_5mmMossberg59012Gauge"), (42, "_15_6mmMossberg59020Gauge"), (43, "_10_4mmMossberg590_410Bore"), (44, "_18_5mmMossberg930SA12Gauge"), (45, "RemingtonModel11SA"), (46, "RemingtonModel1012Gauge"), (47, "_15_6mmRemingtonModel1720Gauge"), (48, "RemingtonModel31"), (49, "RemingtonModel1148SA"), (50, "_18_5mmRemington87012Gauge"), (51, "_16_8mmRemington87016Gauge"), (52, "_15_6mmRemington87020Gauge"), (53, "_14mmRemington87028Gauge"), (54, "_10_4mmRemington870_410Bore"), (55, "RemingtonModel58SA"), (56, "_18_5mmRemington878SA12Gauge"), (57, "_18_5mmRemingtonModel1100SA12Gauge"), (58, "_16_8mmRemingtonModel1100SA16Gauge"), (59, "_15_6mmRemingtonModel1100SA20Gauge"), (60, "_14mmRemingtonModel1100SA28Gauge"), (61, "_10_4mmRemingtonModel1100SA_410Bore"), (62, "_18_5mmRemington1187SA12Gauge"), (63, "_15_6mmRemington1187SA20Gauge"), (64, "_19_7mmRemingtonModelSP10SA10Gauge"), (65, "_18_5mmRemington88712Gauge"), (70, "_18_5mmRemingtonSparta100SxS12Gauge"), (71, "_15_6mmRemingtonSparta100SxS20Gauge"), (72, "_10_4mmRemingtonSparta100SxS_410Bore"), (73, "_18_5mmRemingtonSpartan310OU12Gauge"), (74, "_15_6mmRemingtonSpartan310OU20Gauge"), (75, "_14mmRemingtonSpartan310OU28Gauge"), (76, "_10_4mmRemingtonSpartan310OU_410Bore"), (77, "_18_5mmRemingtonSpartan453SA12Gauge"), (80, "_18_5mmWinchesterModel120012Gauge"), (81, "_16_8mmWinchesterModel120016Gauge"), (82, "_15_6mmWinchesterModel120020Gauge"), (83, "WinchesterModel18871901"), (84, "WinchesterModel1897"), (85, "WinchesterModel1912"), (86, "WinchesterModel21SxS"), (87, "WinchesterModel37SxS"), (88, "_18_5mmHRUltraslugSxS12Gauge"), (89, "_15_6mmHRUltraslugSxS20Gauge"), (90, "_18_5mmCienerUltimateOU12Gauge"), (91, "_18_5mmCoachGunSxSDoubleBarrel12Gauge"), (92, "_18_5mmRugerGoldLabelSxS12Gauge"), (93, "_18_5mmHighStandardModel10SA12Gauge"), (94, "_18_5mmKelTexKSG12Gauge"), (95, "_18_5KACMasterkey12Gauge"), (96, "_18_5mmM26M_A_S_S_12Gauge"), (97, "_18_5mmSRMArmsM1216SA12Gauge"), (98, "_18_5mmAA12FAAtchissonAssault"), (99, "_18_5mmPancorJackhammerFA12Gauge"), (110, "_18_5mmUSAS12FA12Gauge"), (111, "_18_5mmMAULSA12Gauge"), (112, "_18_5mmFNSLPSA12Gauge"), (113, "_18_5mmFNTPS12Gauge"), (115, "_18_5mmENARMPentagunSA12Gauge"), (116, "StevensModel520620"), (117, "StoegerCoachGunSxS"), (118, "StoegerCondorOU"), (120, "_18_5mmArmscorModel30SA12Gauge"), (121, "WeatherbySA08SA"), (122, "_18_5mmFabarmSDASSTactical12Gauge"), (123, "_18_5mmMAG712Gauge"), (124, "_18_5mmNeostead12Gauge"), (125, "_18_5mmArmselStrikerSA12Gauge"), (127, "_18_5mmParkerHaleRogunSA12Gauge"), (130, "_26mmRGA86Revolver"), (131, "_18_5mmSjorgrenSA12Gauge"), (132, "_18_5mmAkdalMKA1919SA12Gauge"), (133, "_18_5mmRetayMasaiMaraSA12Gauge"), (134, "_18_5mmSafirT14SA12Gauge"), (150, "_18_5mmBenelliM1Super90SA12Gauge"), (151, "_15_6mmBenelliM1Super90SA20Gauge"), (152, "_18_5mmBenelliM3Super90SA12Gauge"), (153, "_15_6mmBenelliM3Super90SA20Gauge"), (154, "_18_5mmBenelliM4Super90SA12Gauge"), (155, "_18_5mmBenelliNova12Gauge"), (156, "_15_6mmBenelliNove20Gauge"), (157, "_18_5mmBenelliRaffaelloSA12Gauge"), (158, "_18_5mmBenelliSupernova12Gauge"), (159, "_18_5mmBenelliVinciSA12Gauge"), (160, "_18_5mmBeretta1201FPSA12Gauge"), (161, "_18_5mmBeretta682OU12Gauge"), (162, "_15_6mmBeretta682OU20Gauge"), (163, "_14mmBeretta682OU28Gauge"), (164, "_10_4mmBeretta682OU_410Bore"), (165, "_18_5mmBerettaA303SA12Gauge"), (166, "_18_5mmBerettaAL391SA12Gauge"), (167, "_15_6mmBerettaAL391SA20Gauge"), (168, "_18_5mmBerettaDT10OU12Gauge"), (169, "BerettaSilverPigeonOU"), (170, "_18_5mmBerettaXtrema2SA12Gauge"), (171, "_15_6mmFranchiAL48SA20Gauge"), (172, "_14mmFranchiAL48SA28Gauge"), (173, "_10_4mmFranchimod_410FA_410Bore"), (174, "_18_5mmFranchiSPAS12SA12Gauge"), (175, "_18_5mmFranchiSPAS15SA12Gauge"), (176, "_18_5mmValtroPM5PM535012Gauge"), (180, "BlazerF3OU"), (181, "_18_5mmHKFABARMFP612Gauge"), (182, "_18_5mmHKCAWSFA12Gauge"), (200, "_18_5mmBaikalMP153SA12Gauge"), (201, "_18_5mmBandayevskyRB1212Gauge"), (202, "_18_5mmMolotBekasM12Gauge"), (203, "_16_8mmMolotBekasM16Gauge"), (204, "_18_5mmTOZ19412Gauge"), (205, "_23mmKS23"), (206, "MTs255Revoler12Gauge"), (207, "_18_5mmRMB9312Gauge"), (208, "_18_5mmSaiga12SA12Gauge"), (209, "_15_6mmSaiga12SA20Gauge"), (210, "_10_4mmSaiga12SA_410Bore"), (211, "_18_5mmVepr12SA12Gauge"), (212, "_18_5mmFort50012Gauge"), (220, "_18_5mmNorincoHP9112Gauge")] },
    EnumDef { name: "LifeFormHumanSpecificSniper", width: 1, default: 0, values: &[(0, "Other"), (1, "_5_8mmQBU88"), (30, "_7_62mmC3"), (31, "_7_62mmFRF2"), (32, "_7_62mmAWMF"), (33, "_7_62mmG3SG1"), (34, "_7_62mmGalilSniper"), (35, "_7_62mmL96A1"), (36, "_7_62mmM14DMR"), (37, "_7_62mmM24SniperWeaponSystem"), (38, "_7_62mmM40A1A3"), (39, "_7_62mmSteyrSSG69"), (40, "_7_62mmSVD"), (41, "_7_62mmTYPE79"), (42, "_7_62mmSR25MK11"), (43, "_7_62mmAWSR98"), (44, "_7_62mmBlaserR93"), (45, "_7_62mmM2010EnhancedSniperRifle"), (46, "_7_62mmM110SemiAutomaticSniperSystem"), (47, "_7_62mmL129A1"), (100, "_7_7mmTYPE99"), (105, "_8_58mmBlaserR93Tactical2"), (110, "_9mmVSSVintorez"), (170, "_12_7mmSteyrHS_50"), (171, "_12_7mmM82A1ASpecialApplicationsScopedRifle"), (172, "_12_7mmNSV"), (173, "_12_7mmOSV96"), (174, "_12_7mmRangemaster50"), (175, "_12_7mmV94"), (176, "_12_7mmM107"), (200, "_20mmDenelNTW20")] },
    EnumDef { name: "LifeFormHumanSpecificSubMachineGun", width: 1, default: 0, values: &[(0, "Other"), (10, "_5_45mmAKS74U"), (20, "_5_56mmDaewooK1A"), (60, "_9mmDaewooK7"), (61, "_9mmMAC10"), (62, "_9mmMadsenMKII"), (63, "_9mmMiniUzi"), (64, "_9mmModel83SkorpionSMG"), (65, "_9mmMP5A2"), (66, "_9mmMP5N"), (67, "_9mmSterlingSMG"), (68, "_9mmTypeCF05"), (69, "_9mmUzi")] },
    EnumDef { name: "LifeFormHumanSpecificWeaponNonspecific", width: 1, default: 0, values: &[(0, "Other"), (10, "Knife"), (50, "Machete"), (100, "ExplosiveVest"), (150, "M18A1Claymore")] },
    EnumDef { name: "LifeFormHumanSubcategoryEquipmentClass", width: 1, default: 0, values: &[(0, "None"), (1, "WeaponNonspecific"), (5, "AssaultRifles"), (10, "HighPowerRifles"), (15, "SniperRifles"), (17, "AntiMaterielRifle"), (20, "SubMachineGuns"), (25, "ShotGuns"), (30, "GrenadeLaunchers"), (35, "MachineGuns"), (40, "GrenadeLaunchingMachineGun"), (45, "AntiTankRockets"), (50, "AntiTankMissiles"), (55, "AntiTankGuns"), (60, "FlameRockets"), (65, "FlameThrowers"), (70, "RocketLaunchers"), (75, "Mortars"), (80, "HandGuns"), (85, "ManPortableAirDefenseSystem"), (90, "RecoillessRifles"), (95, "DroneGuns"), (150, "EquipmentNonspecific"), (151, "Sensors"), (152, "SignalSensor"), (153, "Lasers"), (160, "AnimalCompanion"), (171, "PersonalElectronics"), (172, "LogisticsEquipment")] },
    EnumDef { name: "LifeFormLandCategories", width: 1, default: 10, values: &[(10, "ConventionalArmedForces"), (11, "Army"), (12, "NavalInfantry"), (13, "AirForce"), (14, "Navy"), (15, "CoastGuard"), (16, "UnitedNations"), (30, "SpecialOperationsForces"), (50, "LawEnforcement"), (70, "NonMilitaryNationalGovernmentAgencies"), (90, "RegionalLocalForces"), (100, "IrregularForces"), (101, "TerroristCombatant"), (102, "Insurgent"), (110, "ParamilitaryForces"), (120, "HumanitarianOrganizations"), (130, "Civilian"), (131, "EmergencyMedicalTechnician"), (132, "Firefighter"), (133, "Press"), (200, "Mammal"), (201, "Reptile"), (202, "Amphibian"), (203, "Insect"), (204, "Arachnid"), (205, "Mollusk"), (206, "Marsupial")] },
    EnumDef { name: "LifeFormSubsurfaceCategories", width: 1, default: 200, values: &[(200, "Fish"), (201, "Mammal"), (202, "Mollusk"), (203, "Crustacean"), (204, "Insect")] },
    EnumDef { name: "LifeFormsSubcategoryGermanWeapons", width: 1, default: 1, values: &[(1, "G3rifle"), (2, "G11rifle"), (3, "P1pistol"), (4, "MG3machinegun"), (5, "Milanmissile"), (6, "MP1Uzisubmachinegun"), (7, "Panzerfaust3LightAntiTankWeapon"), (8, "DM19HandGrenade"), (9, "DM29HandGrenade")] },
    EnumDef { name: "LifeFormsSubcategoryIranianWeapons", width: 1, default: 1, values: &[(1, "Misagh2"), (2, "RBS70")] },
    EnumDef { name: "LifeSavingEquipment", width: 1, default: 1, values: &[(1, "Lifeboat"), (2, "Liferaft"), (3, "MOBBoat"), (4, "Lifebuoy")] },
    EnumDef { name: "Link11BDataSignalingRate", width: 1, default: 0, values: &[(0, "NoStatement"), (3, "_1200bps"), (4, "_2400bps"), (5, "_600bps")] },
    EnumDef { name: "Link11BLinkState", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Inactive"), (2, "Ready"), (3, "Active"), (4, "Operational")] },
    EnumDef { name: "Link11BMessageSubType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "TransmissionFrame"), (2, "StandbySignal")] },
    EnumDef { name: "Link11BModeofOperation", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "FullTransmissionofData"), (2, "LimitedTransmissionofData"), (3, "Receiveonly")] },
    EnumDef { name: "Link11BModulationStandard", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "CCITTV_23")] },
    EnumDef { name: "Link11DataSignallingRate", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "_1364bps"), (2, "_2250bps"), (3, "_1200bps"), (4, "_2400bps")] },
    EnumDef { name: "Link11DataTerminalSetIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Transmit"), (2, "Receive"), (3, "NetBusy"), (4, "TransmitDataError"), (5, "ReceiveDataError"), (6, "CodeError"), (7, "SynchronizationComplete")] },
    EnumDef { name: "Link11MessageSubType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Interrogation"), (2, "DataStart"), (3, "Data"), (4, "DataStop")] },
    EnumDef { name: "Link11MessageTypeIdentifier", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "NetTest"), (2, "RollCall"), (3, "PicketReply"), (4, "ShortBroadcast"), (5, "Broadcast"), (6, "NetSync")] },
    EnumDef { name: "Link11ModeofOperation", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "NetSync"), (2, "NetTest"), (3, "RollCall"), (4, "ShortBroadcast"), (5, "Broadcast")] },
    EnumDef { name: "Link11SignalIntegrationInterval", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "_9ms"), (2, "_18ms")] },
    EnumDef { name: "Link11SignalWaveform", width: 1, default: 0, values: &[(0, "NoStatementCLEWFormat"), (1, "ConventionalLinkElevenWaveform"), (2, "SingleToneLinkElevenWaveform")] },
    EnumDef { name: "Link11TerminalMode", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "NetworkControlStation"), (2, "Picket")] },
    EnumDef { name: "Link11_11BEncryptionFlag", width: 1, default: 0, values: &[(0, "NoEncryptionUsed"), (1, "EncryptionUsed")] },
    EnumDef { name: "Link11_11BFidelityLevel", width: 1, default: 0, values: &[(0, "FidelityLevel0"), (1, "FidelityLevel1"), (2, "FidelityLevel2")] },
    EnumDef { name: "Link16Version", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "MILSTD6016C"), (2, "MILSTD6016D"), (3, "MILSTD6016E"), (4, "MILSTD6016F"), (5, "MILSTD6016FC1"), (103, "STANAG5516Ed3"), (104, "STANAG5516Ed4"), (105, "STANAG5516Ed5"), (106, "STANAG5516Ed6"), (108, "STANAG5516Ed8")] },
    EnumDef { name: "Material", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "Plastic"), (2, "Rubber"), (3, "Road")] },
    EnumDef { name: "MessageTypeIdentifier", width: 1, default: 0, values: &[(0, "JTIDSHeaderMessages"), (1, "RTTAB"), (2, "RTTReply"), (3, "JTIDSVoiceCVSD"), (4, "JTIDSVoiceLPC10"), (5, "JTIDSVoiceLPC12"), (6, "JTIDSLET"), (7, "VMF")] },
    EnumDef { name: "MinefieldAppearanceActiveStatus", width: 1, default: 0, values: &[(0, "Active"), (1, "Inactive")] },
    EnumDef { name: "MinefieldAppearanceLane", width: 1, default: 0, values: &[(0, "MinefieldHasActiveLane"), (1, "MinefieldHasanInactiveLane")] },
    EnumDef { name: "MinefieldAppearanceMinefieldType", width: 1, default: 0, values: &[(0, "MixedAntiPersonnelandAntiTankMinefield"), (1, "PureAntiPersonnelMinefield"), (2, "PureAntiTankMinefield")] },
    EnumDef { name: "MinefieldAppearanceState", width: 1, default: 0, values: &[(0, "Active"), (1, "Deactivated")] },
    EnumDef { name: "MinefieldFusingFuseType", width: 1, default: 0, values: &[(0, "NoFuse"), (1, "Other"), (2, "Pressure"), (3, "Magnetic"), (4, "TiltRod"), (5, "Command"), (6, "TripWire")] },
    EnumDef { name: "MinefieldPaintSchemeAlgae", width: 1, default: 0, values: &[(0, "None"), (1, "Light"), (2, "Moderate"), (3, "Heavy")] },
    EnumDef { name: "MinefieldPaintSchemePaintScheme", width: 1, default: 0, values: &[(0, "Other"), (1, "Standard"), (2, "CamouflageDesert"), (3, "CamouflageJungle"), (4, "CamouflageSnow"), (5, "CamouflageGravel"), (6, "CamouflagePavement"), (7, "CamouflageSand"), (8, "NaturalWood"), (9, "Clear"), (10, "Red"), (11, "Blue"), (12, "Green"), (13, "Olive"), (14, "White"), (15, "Tan"), (16, "Black"), (17, "Yellow"), (18, "Brown")] },
    EnumDef { name: "MinefieldSensorTypes", width: 1, default: 0, values: &[(0, "Other"), (1, "Optical"), (2, "FLIR"), (3, "RADAR"), (4, "Magnetic"), (5, "Laser"), (6, "SONAR"), (7, "Physical"), (8, "Multispectral")] },
    EnumDef { name: "MinefieldSensorTypesFLIR", width: 2, default: 0, values: &[(0, "Generic35"), (1, "Generic812"), (2, "ASTAMIDSI"), (3, "ASTAMIDSII"), (4, "GSTAMIDS35"), (5, "GSTAMIDS812"), (6, "HSTAMIDS35"), (7, "HSTAMIDS812"), (8, "COBRA35"), (9, "COBRA812")] },
    EnumDef { name: "MinefieldSensorTypesLaser", width: 2, default: 0, values: &[(0, "Generic"), (1, "ASTAMIDS")] },
    EnumDef { name: "MinefieldSensorTypesMagnetic", width: 2, default: 0, values: &[(0, "Generic"), (1, "ANPSS11"), (2, "ANPSS12"), (3, "GSTAMIDS")] },
    EnumDef { name: "MinefieldSensorTypesMultispectral", width: 2, default: 0, values: &[(0, "Generic")] },
    EnumDef { name: "MinefieldSensorTypesOptical", width: 2, default: 0, values: &[(0, "UnaidedEyeActivelySearching"), (1, "UnaidedEyeNotActivelySearching"), (2, "Binoculars"), (3, "ImageIntensifier"), (4, "HMMWVoccupantActivelySearching"), (5, "HMMWVoccupantNotActivelySearching"), (6, "TruckoccupantActivelySearching"), (7, "TruckoccupantNotActivelySearching"), (8, "TrackedvehicleoccupantclosedhatchActivelySearching"), (9, "TrackedvehicleoccupantclosedhatchNotActivelySearching"), (10, "TrackedvehicleoccupantopenhatchActivelySearching"), (11, "TrackedvehicleoccupantopenhatchNotActivelySearching")] },
    EnumDef { name: "MinefieldSensorTypesPhysical", width: 2, default: 0, values: &[(0, "GenericProbe"), (1, "ProbeMetalContent"), (2, "ProbeNoMetalContent")] },
    EnumDef { name: "MinefieldSensorTypesRADAR", width: 2, default: 0, values: &[(0, "Generic"), (1, "GenericGPR"), (2, "GSTAMIDSI"), (3, "GSTAMIDSII"), (4, "HSTAMIDSI"), (5, "HSTAMIDSII")] },
    EnumDef { name: "MinefieldSensorTypesSONAR", width: 2, default: 0, values: &[(0, "Generic")] },
    EnumDef { name: "MinefieldStateProtocolMode", width: 2, default: 0, values: &[(0, "HeartbeatMode"), (1, "QRPMode")] },
    EnumDef { name: "Mode5IFFMission", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "SurveillanceSHORAD"), (2, "SHORADassociatedwithaWeaponsSystem"), (3, "WeaponSystem"), (4, "AirborneandSurfaceSurveillancePlatforms"), (5, "AirborneandSurfaceWeaponsPlatforms"), (6, "GroundtoGround")] },
    EnumDef { name: "Mode5LevelSelection", width: 1, default: 0, values: &[(0, "Mode5Level1"), (1, "Mode5Level2")] },
    EnumDef { name: "Mode5LocationErrors", width: 1, default: 0, values: &[(0, "NoLocationErrors"), (1, "IFFDataRecordPresent")] },
    EnumDef { name: "Mode5MessageFormatsStatus", width: 1, default: 0, values: &[(0, "Capability"), (1, "ActiveInterrogation")] },
    EnumDef { name: "Mode5PlatformType", width: 1, default: 0, values: &[(0, "GroundVehicle"), (1, "AirVehicle")] },
    EnumDef { name: "Mode5Reply", width: 1, default: 0, values: &[(0, "NoResponse"), (1, "Valid"), (2, "Invalid"), (3, "UnabletoVerify")] },
    EnumDef { name: "Mode5SAltitudeResolution", width: 1, default: 0, values: &[(0, "_100foot"), (1, "_25foot")] },
    EnumDef { name: "Mode5SquitterType", width: 1, default: 0, values: &[(0, "NotCapable"), (1, "Short"), (2, "Extended")] },
    EnumDef { name: "ModeCAltitudeIndicator", width: 1, default: 0, values: &[(0, "PositiveAltitudeAboveMSL"), (1, "NegativeAltitudeBelowMSLUseAlternateModeCAltitude")] },
    EnumDef { name: "ModeSInterrogatorIdentifierICType", width: 1, default: 0, values: &[(0, "II"), (1, "SI")] },
    EnumDef { name: "ModeSInterrogatorStatusTransmitState", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "RollCall"), (2, "AllCall"), (3, "LockoutOverride"), (4, "TemporaryLockout"), (5, "IntermittentLockout")] },
    EnumDef { name: "ModeSSquitterRecordSource", width: 1, default: 0, values: &[(0, "Layer4IFFDataRecords"), (1, "Layer5GICBIFFDataRecords")] },
    EnumDef { name: "ModeSSquitterType", width: 1, default: 0, values: &[(0, "NotCapable"), (1, "Acquisition"), (2, "Extended"), (3, "Short")] },
    EnumDef { name: "MunitionCategory", width: 1, default: 0, values: &[(0, "Other"), (1, "Guided"), (2, "Ballistic"), (3, "Fixed")] },
    EnumDef { name: "MunitionDescriptorFuse", width: 2, default: 0, values: &[(0, "Other"), (10, "IntelligentInfluence"), (20, "Sensor"), (30, "Selfdestruct"), (40, "UltraQuick"), (50, "Body"), (60, "DeepIntrusion"), (100, "Multifunction"), (200, "PointDetonation"), (300, "BaseDetonation"), (1000, "Contact"), (1100, "ContactInstant"), (1200, "ContactDelayed"), (1201, "_10msDelay"), (1202, "_20msDelay"), (1205, "_50msDelay"), (1206, "_60msDelay"), (1210, "_100msDelay"), (1212, "_125msDelay"), (1225, "_250msDelay"), (1250, "_5msDelay"), (1251, "_15msDelay"), (1252, "_25msDelay"), (1253, "_30msDelay"), (1254, "_35msDelay"), (1255, "_40msDelay"), (1256, "_45msDelay"), (1257, "_90msDelay"), (1258, "_120msDelay"), (1259, "_180msDelay"), (1260, "_240msDelay"), (1300, "ContactElectronic"), (1400, "ContactGraze"), (1500, "ContactCrush"), (1600, "ContactHydrostatic"), (1700, "ContactMechanical"), (1800, "ContactChemical"), (1900, "ContactPiezoelectric"), (1910, "ContactPointInitiating"), (1920, "ContactPointInitiatingBaseDetonating"), (1930, "ContactBaseDetonating"), (1940, "ContactBallisticCapandBase"), (1950, "ContactBase"), (1960, "ContactNose"), (1970, "ContactFittedinStandoffProbe"), (1980, "ContactNonaligned"), (2000, "Timed"), (2100, "TimedProgrammable"), (2200, "TimedBurnout"), (2300, "TimedPyrotechnic"), (2400, "TimedElectronic"), (2500, "TimedBaseDelay"), (2600, "TimedReinforcedNoseImpactDelay"), (2700, "TimedShortDelayImpact"), (2701, "_10msDelay2"), (2702, "_20msDelay2"), (2705, "_50msDelay2"), (2706, "_60msDelay2"), (2710, "_100msDelay2"), (2712, "_125msDelay2"), (2725, "_250msDelay2"), (2800, "TimedNoseMountedVariableDelay"), (2900, "TimedLongDelaySide"), (2910, "TimedSelectableDelay"), (2920, "TimedImpact"), (2930, "TimedSequence"), (3000, "Proximity"), (3100, "ProximityActiveLaser"), (3200, "ProximityMagnetic"), (3300, "ProximityActiveRadar"), (3400, "ProximityRadioFrequency"), (3500, "ProximityProgrammable"), (3600, "ProximityProgrammablePrefragmented"), (3700, "ProximityInfrared"), (4000, "Command"), (4100, "CommandElectronicRemotelySet"), (5000, "Altitude1"), (5100, "AltitudeRadioAltimeter"), (5200, "AltitudeAirBurst"), (6000, "Depth"), (7000, "Acoustic"), (8000, "Pressure"), (8010, "PressureDelay"), (8100, "Inert"), (8110, "Dummy"), (8120, "Practice"), (8130, "PlugRepresenting"), (8150, "Training"), (9000, "Pyrotechnic"), (9010, "PyrotechnicDelay"), (9100, "Electrooptical"), (9110, "Electromechanical"), (9120, "ElectromechanicalNose"), (9200, "Strikerless"), (9210, "StrikerlessNoseImpact"), (9220, "StrikerlessCompressionIgnition"), (9300, "CompressionIgnition"), (9310, "CompressionIgnitionStrikerlessNoseImpact"), (9400, "Percussion"), (9410, "PercussionInstantaneous"), (9500, "Electronic"), (9510, "ElectronicInternallyMounted"), (9520, "ElectronicRangeSetting"), (9530, "ElectronicProgrammed"), (9600, "Mechanical"), (9610, "MechanicalNose"), (9620, "MechanicalTail")] },
    EnumDef { name: "MunitionDescriptorWarhead", width: 2, default: 0, values: &[(0, "Other"), (10, "Cargo"), (20, "FuelAirExplosive"), (30, "GlassBeads"), (31, "_1um"), (32, "_5um"), (33, "_10um"), (1000, "HighExplosive"), (1100, "HEPlastic"), (1200, "HEIncendiary"), (1300, "HEFragmentation"), (1400, "HEAntiTank"), (1500, "HEBomblets"), (1600, "HEShapedCharge"), (1610, "HEContinuousRod"), (1615, "HETungstenBall"), (1620, "HEBlastFragmentation"), (1625, "HESteerableDartswithHE"), (1630, "HEDarts"), (1635, "HEFlechettes"), (1640, "HEDirectedFragmentation"), (1645, "HESemiArmorPiercing"), (1650, "HEShapedChargeFragmentation"), (1655, "HESemiArmorPiercingFragmentation"), (1660, "HEHollowCharge"), (1665, "HEDoubleHollowCharge"), (1670, "HEGeneralPurpose"), (1675, "HEBlastPenetrator"), (1680, "HERodPenetrator"), (1685, "HEAntiPersonnel"), (1690, "HEShapedChargeFragmentationIncendiary"), (1695, "HEPenetratorBlastFragmentation"), (2000, "Smoke"), (2005, "WP"), (2010, "FOGO"), (2015, "HC"), (3000, "Illumination"), (4000, "Practice"), (4001, "Blank"), (4002, "Dummy"), (5000, "Kinetic"), (6000, "Mines"), (7000, "Nuclear"), (7010, "NuclearIMT"), (7011, "NuclearVariousYields"), (8000, "ChemicalGeneral"), (8100, "ChemicalBlisterAgent"), (8110, "HD"), (8115, "ThickenedHD"), (8120, "DustyHD"), (8125, "L"), (8130, "HN3"), (8135, "HL"), (8140, "CX"), (8145, "DMMP"), (8150, "DMHP"), (8155, "DMA"), (8160, "DEM"), (8165, "PX"), (8200, "ChemicalBloodAgent"), (8210, "AC"), (8215, "CK"), (8220, "CG"), (8300, "ChemicalNerveAgent"), (8310, "VX"), (8315, "ThickenedVX"), (8320, "DustyVX"), (8325, "GA"), (8330, "ThickenedGA"), (8335, "DustyGA"), (8340, "GB"), (8345, "ThickenedGB"), (8350, "DustyGB"), (8355, "GD"), (8360, "ThickenedGD"), (8365, "DustyGD"), (8370, "GF"), (8375, "ThickenedGF"), (8380, "DustyGF"), (8385, "SVX"), (8410, "BIS"), (8415, "TCP"), (8425, "MS"), (8430, "TEP"), (8445, "H2O"), (8450, "TO1"), (8455, "TO2"), (8460, "TO3"), (8465, "SulfurHexafluoride"), (8470, "AA"), (8475, "HF"), (9000, "Biological"), (9100, "BiologicalVirus"), (9200, "BiologicalBacteria"), (9300, "BiologicalRickettsia"), (9400, "BiologicalGeneticallyModifiedMicroorganisms"), (9500, "BiologicalToxin")] },
    EnumDef { name: "MunitionExpendableStatus", width: 1, default: 0, values: &[(0, "Other"), (1, "Ready"), (2, "Inventory")] },
    EnumDef { name: "MunitionKind", width: 1, default: 0, values: &[(0, "Other"), (1, "AntiAir"), (2, "AntiArmor"), (3, "AntiGuidedWeapon"), (4, "AntiRadar"), (5, "AntiSatellite"), (6, "AntiShip"), (7, "AntiSubmarine"), (8, "AntiPersonnel"), (9, "BattlefieldSupport"), (10, "Strategic"), (11, "Tactical"), (12, "DirectedEnergyWeapon")] },
    EnumDef { name: "NETIDRecordFrequencyTable", width: 1, default: 0, values: &[(0, "HQIOperations"), (1, "HQIINATOEuropeAreaOperations"), (2, "HQIINonNATOEuropeAreaOperations"), (3, "SATURNOperations")] },
    EnumDef { name: "NETIDRecordMode", width: 1, default: 1, values: &[(1, "AHAVEQUICKIorHAVEQUICKIICOMBAT"), (2, "BSATURNCOMBAT"), (3, "TTRAINING")] },
    EnumDef { name: "NavigationSource", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "GPS"), (2, "INS"), (3, "INSGPS")] },
    EnumDef { name: "ObjectKind", width: 1, default: 0, values: &[(0, "Other"), (1, "Obstacle"), (2, "PreparedPosition"), (3, "CulturalFeature"), (4, "Passageway"), (5, "TacticalSmoke"), (6, "ObstacleMarker"), (7, "ObstacleBreach"), (8, "EnvironmentalObject")] },
    EnumDef { name: "OtherKinds", width: 1, default: 0, values: &[(0, "Other"), (1, "Land"), (2, "Air"), (3, "Surface"), (4, "Subsurface"), (5, "Space")] },
    EnumDef { name: "OwnershipStatus", width: 1, default: 0, values: &[(0, "Other"), (1, "NewOwner"), (2, "OwnershipQueryResponse"), (3, "OwnershipConflict"), (4, "LocalEntityCancelledAutoResolveConflict"), (5, "LocalEntityCancelledManualResolveConflict"), (6, "LocalEntityCancelledRemoveEntityTCRReceived")] },
    EnumDef { name: "Parachute", width: 1, default: 0, values: &[(0, "None"), (1, "Deployed"), (2, "Collapsed"), (3, "MalfunctionStreamer")] },
    EnumDef { name: "PduStatusIFFSimulationMode", width: 1, default: 0, values: &[(0, "Regeneration"), (1, "Interactive")] },
    EnumDef { name: "PduType", width: 1, default: 0, values: &[(0, "Other"), (1, "EntityState"), (2, "Fire"), (3, "Detonation"), (4, "Collision"), (5, "ServiceRequest"), (6, "ResupplyOffer"), (7, "ResupplyReceived"), (8, "ResupplyCancel"), (9, "RepairComplete"), (10, "RepairResponse"), (11, "CreateEntity"), (12, "RemoveEntity"), (13, "StartResume"), (14, "StopFreeze"), (15, "Acknowledge"), (16, "ActionRequest"), (17, "ActionResponse"), (18, "DataQuery"), (19, "SetData"), (20, "Data"), (21, "EventReport"), (22, "Comment"), (23, "ElectromagneticEmission"), (24, "Designator"), (25, "Transmitter"), (26, "Signal"), (27, "Receiver"), (28, "IFF"), (29, "UnderwaterAcoustic"), (30, "SupplementalEmission"), (31, "IntercomSignal"), (32, "IntercomControl"), (33, "AggregateState"), (34, "IsGroupOf"), (35, "TransferOwnership"), (36, "IsPartOf"), (37, "MinefieldState"), (38, "MinefieldQuery"), (39, "MinefieldData"), (40, "MinefieldResponseNack"), (41, "EnvironmentalProcess"), (42, "GriddedData"), (43, "PointObjectState"), (44, "LinearObjectState"), (45, "ArealObjectState"), (46, "TimeSpacePositionInformation"), (47, "Appearance"), (48, "ArticulatedParts"), (49, "LiveEntityFire"), (50, "LiveEntityDetonation"), (51, "CreateEntityReliable"), (52, "RemoveEntityReliable"), (53, "StartResumeReliable"), (54, "StopFreezeReliable"), (55, "AcknowledgeReliable"), (56, "ActionRequestReliable"), (57, "ActionResponseReliable"), (58, "DataQueryReliable"), (59, "SetDataReliable"), (60, "DataReliable"), (61, "EventReportReliable"), (62, "CommentReliable"), (63, "RecordReliable"), (64, "SetRecordReliable"), (65, "RecordQueryReliable"), (66, "CollisionElastic"), (67, "EntityStateUpdate"), (68, "DirectedEnergyFire"), (69, "EntityDamageStatus"), (70, "InformationOperationsAction"), (71, "InformationOperationsReport"), (72, "Attribute")] },
    EnumDef { name: "PhysicalAssociationTypeGroups", width: 1, default: 0, values: &[(0, "NotSpecified"), (1, "TowedMountedSlingLoad"), (2, "Restrained"), (3, "Mission"), (4, "OtherConnections")] },
    EnumDef { name: "PlatformAirCivilianFixedWingAircraftSubcategories", width: 1, default: 11, values: &[(11, "SinglePistonEngine"), (12, "TwinPistonEngine"), (21, "SingleEngineTurboprop"), (22, "TwinEngineTurboprop"), (24, "FourEngineTurboprop"), (32, "TwinJet"), (33, "TriJet"), (34, "FourEngineJet")] },
    EnumDef { name: "PlatformAirCivilianGliderSubcategories", width: 1, default: 1, values: &[(1, "SailPlane"), (2, "MotorGlider")] },
    EnumDef { name: "PlatformAirCivilianHelicopterSubcategories", width: 1, default: 11, values: &[(11, "SingleRotorPistonEngine"), (12, "SingleRotorTurboshaftEngineConventionalTailRotor"), (13, "SingleRotorTurboshaftEngineShroudedTailRotor"), (14, "SingleRotorTurboshaftEngineNoTailRotor"), (21, "TandemRotor"), (22, "CoaxialRotor"), (23, "IntermeshingRotor")] },
    EnumDef { name: "PlatformAirCivilianLighterthanAirAirshipSubcategories", width: 1, default: 1, values: &[(1, "Nonrigid"), (2, "Semirigid"), (3, "Rigid"), (4, "Hybrid")] },
    EnumDef { name: "PlatformAirCivilianLighterthanAirBalloonSubcategories", width: 1, default: 1, values: &[(1, "Gasfilledfree"), (2, "Gasfilledtethered"), (3, "HotAir"), (4, "RoziereBalloon"), (5, "Helikite")] },
    EnumDef { name: "PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories", width: 1, default: 1, values: &[(1, "HangGliderUnpowered"), (2, "HangGliderPowered"), (3, "ParagliderUnpowered"), (4, "ParagliderPowered"), (5, "PoweredParachute")] },
    EnumDef { name: "PlatformAirCivilianUltralightRigidWingAircraftSubcategories", width: 1, default: 1, values: &[(1, "Weightshiftcontrol"), (2, "Controlsurfacecontrol")] },
    EnumDef { name: "PlatformLandBusSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "CommuterFlatNose"), (2, "CommuterSnoutNose"), (3, "Shuttle"), (4, "DoubleDecker"), (5, "Guided"), (6, "Kneeling"), (7, "Midibus"), (8, "Minibus"), (9, "MiniWheelchair"), (10, "Motorcoach"), (11, "PrisonBus"), (12, "Schoolbus"), (13, "SchoolWheelchair"), (14, "Tour"), (15, "TramParkingLot"), (16, "Trolley"), (17, "AirportTransport"), (18, "Articulated")] },
    EnumDef { name: "PlatformLandCarSubcategories", width: 1, default: 0, values: &[(0, "Other"), (10, "Generic"), (11, "GenericMiniMicrocar"), (12, "GenericEconomyCompact"), (13, "GenericIntermediateStandard"), (14, "GenericFullPremiumLuxury"), (15, "GenericOversize"), (20, "_2DoorCoupe"), (21, "_2DoorCoupeMiniMicrocar"), (22, "_2DoorCoupeEconomyCompact"), (23, "_2DoorCoupeIntermediateStandard"), (30, "_3DoorHatchback"), (31, "_3DoorHatchbackMiniMicrocar"), (32, "_3DoorHatchbackEconomyCompact"), (40, "_4DoorSedan"), (41, "_4DoorSedanMiniMicrocar"), (42, "_4DoorSedanEconomyCompact"), (43, "_4DoorSedanIntermediateStandard"), (44, "_4DoorSedanFullPremiumLuxury"), (45, "_4DoorSedanOversize"), (50, "_5DoorHatchback"), (51, "_5DoorHatchbackMiniMicrocar"), (52, "_5DoorHatchbackEconomyCompact"), (53, "_5DoorHatchbackIntermediateStandard"), (54, "_5DoorHatchbackFullPremiumLuxury"), (60, "Wagon"), (62, "WagonEconomyCompact"), (63, "WagonIntermediateStandard"), (64, "WagonFullPremiumLuxury"), (70, "Minivan"), (80, "Limousine"), (84, "LimousineFullPremiumLuxury"), (85, "LimousineOversize"), (90, "Sports"), (100, "Convertible"), (101, "ConvertibleMiniMicrocar"), (102, "ConvertibleEconomyCompact"), (103, "ConvertibleIntermediateStandard"), (104, "ConvertibleFullPremiumLuxury"), (110, "SportsUtilityVehicle"), (112, "SportsUtilityVehicleEconomyCompact"), (113, "SportsUtilityVehicleIntermediateStandard"), (114, "SportsUtilityVehicleFullPremiumLuxury"), (115, "SportsUtilityVehicleOversize")] },
    EnumDef { name: "PlatformLandConstructionSpecialtyVehicleSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Tug"), (2, "Forklift"), (3, "Loader"), (4, "LoaderBackhoe"), (5, "CraneTractorMounted"), (6, "CraneWheeled"), (7, "Grader"), (8, "RoadRollerOther"), (9, "RoadRollerDoubleDrumSmooth"), (10, "RoadRollerSingleDrumSmooth"), (11, "RoadRollerDoubleDrumSheeps"), (12, "RoadRollerSingleDrumSheeps"), (13, "RoadRollerPneumaticTired"), (14, "ExcavatorOther"), (15, "ExcavatorDragline"), (16, "ExcavatorLongReach"), (17, "ExcavatorMobileTire"), (18, "MiniExcavator"), (19, "ExcavatorGiant"), (20, "BulldozerTractorMounted"), (21, "BulldozerTracked"), (22, "Scraper"), (23, "SkidSteer"), (24, "DumpTruckOther"), (25, "DumpTruckArticulated"), (26, "DumpTruckTransfer"), (27, "DumpTruckSuper"), (28, "DumpTruckOffRoad"), (29, "Paver"), (30, "DrillingMachine"), (31, "ConcreteMixerOther"), (32, "ConcreteMixerRearDischarge"), (33, "ConcreteMixerFrontDischarge"), (34, "ConcreteMixerSixAxle"), (35, "ConcreteMixerLongReachBoom"), (36, "ConcreteMixerVolumetric"), (37, "TrencherChain"), (38, "TrencherRockwheel"), (39, "Snowcat"), (40, "CraneTracked"), (41, "CraneShovel"), (42, "SweeperRotary"), (43, "RollerVibratoryCompactor"), (44, "ForkLiftTruck"), (45, "ForkLiftRoughtTerrain"), (46, "Transloader"), (47, "TruckWaterConstruction"), (48, "TruckFuelDelivery"), (49, "TruckSawmill"), (50, "TruckLineMarkingConstruction"), (51, "TractorIndustrial"), (52, "CompactorHighSpeed"), (53, "TruckDrilling"), (54, "TruckDrillingSupport"), (55, "CraneConstruction")] },
    EnumDef { name: "PlatformLandFarmSpecialtyVehicleSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Tractor"), (2, "HarvesterReaper"), (3, "Skidder"), (4, "Forwarder"), (5, "LawnMowerOther"), (6, "LawnMowerRiding"), (7, "LawnMowerStanding"), (8, "LawnMowerPush")] },
    EnumDef { name: "PlatformLandMotorcycleSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Scooter"), (2, "SportStreet"), (3, "Cruiser"), (4, "DirtBike"), (5, "Standard"), (6, "Touring"), (7, "DualPurpose")] },
    EnumDef { name: "PlatformLandMultipleUnitCargoTruckSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "TractorTrailer"), (2, "Tanker")] },
    EnumDef { name: "PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "FireEngineHookAndLadder")] },
    EnumDef { name: "PlatformLandNonmotorizedSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Unicycle"), (2, "Bicycle"), (3, "BicycleMountain"), (4, "BicycleRacing"), (5, "Tricycle"), (6, "Quadricycle"), (7, "RickshawTwoPerson"), (8, "RickshawOnePerson"), (9, "TandemBicycle"), (10, "CycleTrailer"), (11, "CycleSidecar"), (12, "Sled"), (13, "Skis"), (14, "Snowboard"), (15, "Skateboard"), (16, "Skates"), (17, "SkatesInLine"), (18, "WagonCart"), (19, "Dolly"), (20, "Handtruck"), (21, "PushCart"), (22, "Wheelbarrow"), (23, "KickScooter"), (24, "Wheelchair")] },
    EnumDef { name: "PlatformLandRecreationalSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "ATV2X4"), (2, "ATV4X4"), (3, "ATV6X6"), (4, "ATV3wheeled"), (5, "ToyOther"), (6, "ToyCar"), (7, "ToyATV"), (8, "GolfCart"), (9, "Snowmobile"), (10, "RecreationalVehicle"), (11, "RecreationalVehicleTypeAMotorhome"), (12, "RecreationalVehicleTypeBMotorhome"), (13, "RecreationalVehicleTypeCMotorhome"), (14, "ConversionVan")] },
    EnumDef { name: "PlatformLandSingleUnitCargoTruckSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "PickupTruckMini"), (2, "PickupTruckMidSize"), (3, "PickupTruckFullSize"), (4, "PickupTruckCrewCab"), (5, "PickupTruckExtendedCab"), (6, "PickupTruckLongBed"), (7, "PickupTruckCabForward"), (10, "CargoTruck"), (11, "CargoTruckupto2_5Ton"), (12, "CargoTruckupto5Ton"), (13, "CargoTruckupto7_5Ton"), (14, "CargoTruckupto10Ton"), (15, "CargoTruckover10Ton"), (20, "Tanker"), (30, "SemiTrailerCab"), (70, "Van"), (71, "VanExtended"), (72, "VanCompact"), (73, "VanWheelchair"), (74, "VanDelivery"), (100, "DeliveryTruck"), (101, "DeliveryTruckBox"), (102, "DeliveryTruckFlatbed"), (103, "DeliveryTruckStakeBed"), (104, "MessTruck"), (105, "TruckPalletisedLoadSystem"), (106, "TruckPetroleumOilandLubricants"), (107, "TruckPetroleumOilandLubricantsSurveillance"), (108, "RefrigeratedTruckSmall"), (109, "RefrigeratedTruckMedium"), (110, "RefrigeratedTruckLarge")] },
    EnumDef { name: "PlatformLandSingleUnitUtilityEmergencyTruckSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "AmbulanceTruck"), (2, "FireParamedicTruck"), (3, "AmbulanceAdvancedLifeSupport"), (4, "AmbulancePickupTruck"), (10, "FireEngine"), (11, "AerialLadderFireEngine"), (12, "AirportFireEngine"), (13, "WildlandFireEngine"), (14, "FireChief"), (20, "PolicePaddyWagon"), (21, "PoliceSWAT"), (22, "PoliceBombSquad"), (23, "PolicePickupTruck"), (30, "Hazmat"), (40, "WreckerNormalHookandChain"), (41, "WreckerNormalBoom"), (42, "WreckerNormalWheelLift"), (43, "WreckerNormalFlatbed"), (44, "WreckerNormalIntegrated"), (45, "WreckerHeavyHookandChain"), (46, "WreckerHeavyBoom"), (47, "WreckerHeavyWheelLift"), (48, "WreckerHeavyFlatbed"), (49, "WreckerHeavyIntegrated"), (60, "PostalTruck"), (70, "StreetSweeper"), (71, "StreetSweeperThreeWheeled"), (80, "WasteCollectionOther"), (81, "WasteCollectionFrontLoader"), (82, "WasteCollectionRearLoader"), (83, "WasteCollectionAutomatedSideLoader"), (84, "WasteCollectionPneumaticCollection"), (85, "WasteCollectionGrapple"), (90, "UtilityTruck"), (91, "UtilityTruckwBoom"), (100, "AerialWorkPlatformOther"), (101, "AerialWorkPlatformScissorLift"), (102, "AerialWorkPlatformTelescoping"), (120, "MaintenanceTruck"), (121, "DecontaminationTruck"), (122, "WaterCannonTruck"), (123, "WaterPurificationTruck"), (124, "SmokeGeneratorTruck"), (150, "AutoRickshaw")] },
    EnumDef { name: "PlatformLandTrailerSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "TrailerFlatbed"), (2, "TrailerContainer"), (3, "TrailerContainerRefrigerated"), (4, "TrailerDouble"), (5, "TrailerAutoTransport"), (6, "TrailerArticulated"), (7, "TrailerTanker"), (8, "TrailerTankerSmall"), (9, "TrailerTankerLarge"), (10, "TrailerTankerGasoline"), (11, "TrailerTankerMilk"), (12, "TrailerTankerWater"), (13, "TrailerTankerSeptic"), (14, "TrailerBoat"), (15, "TrailerBoatSmall"), (16, "TrailerBoatLarge"), (17, "TrailerRecreational"), (18, "TrailerRecreationalConventional"), (19, "TrailerRecreationalTravelExpandable"), (20, "TrailerRecreationalFifthWheelTravel"), (21, "TrailerRecreationalFoldingCamping"), (22, "TrailerRecreationalTruckCamper"), (23, "TrailerAerostatMooringPlatform"), (24, "TrailerHousehold"), (25, "TrailerKitchen"), (26, "TrailerUltraLightAircraft"), (27, "TrailerHeavyEquipment")] },
    EnumDef { name: "PlatformLandTrainsSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Engine"), (2, "BoxCar"), (3, "Tanker"), (4, "Flatcar"), (5, "Caboose"), (6, "PassengerCar"), (7, "Hopper")] },
    EnumDef { name: "PlatformLandUtilityEmergencyCarSubcategories", width: 1, default: 0, values: &[(0, "Other"), (1, "AmbulanceCar"), (2, "PoliceCar"), (3, "PoliceChief"), (4, "Hearse"), (5, "Taxi")] },
    EnumDef { name: "PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories", width: 1, default: 1, values: &[(1, "NarcoSubmarine")] },
    EnumDef { name: "PlatformSurfaceDryCargoShipSubcategories", width: 1, default: 1, values: &[(1, "CommonDryCargoShip"), (2, "DryBulkCargoShip"), (3, "ContainerShip"), (4, "ReeferShip"), (5, "RoRoShip"), (6, "Barge"), (7, "HeavyLiftShip")] },
    EnumDef { name: "PlatformSurfaceFishingVesselSubcategories", width: 1, default: 1, values: &[(1, "SmallFishingVessel"), (2, "MediumFishingVessel"), (3, "LargeFishingVessel"), (4, "FishProcessingVessel"), (5, "MastedFishingVessel")] },
    EnumDef { name: "PlatformSurfaceOtherVesselsSubcategories", width: 1, default: 1, values: &[(1, "GoFastBoat"), (2, "ResearchVessel"), (3, "HydrofoilVessel"), (4, "CableLayerVessel"), (5, "DredgerVessel"), (6, "JunkDhowVessel"), (7, "Catamaran"), (8, "Pontoon"), (9, "PersonalWaterCraft"), (10, "RefugeeRaft")] },
    EnumDef { name: "PlatformSurfacePassengerVesselSubcategories", width: 1, default: 1, values: &[(1, "CruiseShip"), (2, "CruiseFerry"), (3, "HighSpeedFerry"), (4, "Ferry"), (5, "OceanLiner")] },
    EnumDef { name: "PlatformSurfacePrivateMotorboatSubcategories", width: 1, default: 1, values: &[(1, "SmallMotorboat"), (2, "MediumMotorboat"), (3, "LargeMotorboat"), (4, "VeryLargeMotorboat")] },
    EnumDef { name: "PlatformSurfacePrivateSailboatSubcategories", width: 1, default: 1, values: &[(1, "SmallSailboat"), (2, "MediumSailboat"), (3, "LargeSailboat"), (4, "VeryLargeSailboat")] },
    EnumDef { name: "PlatformSurfaceSupportVesselSubcategories", width: 1, default: 1, values: &[(1, "PlatformSupplyVessel"), (2, "TenderVessel"), (3, "Tugboat"), (4, "DiveSupportVessel"), (5, "Fireboat"), (6, "WellStimulationVessel"), (7, "AnchorHandlingTugSupplyVessel"), (8, "OffshoreConstructionVessel"), (9, "EmergencyResponseandRescueVessel")] },
    EnumDef { name: "PlatformSurfaceTankerSubcategories", width: 1, default: 1, values: &[(1, "LiquidPetroleumGasTanker"), (2, "ChemicalTanker"), (3, "LiquidNaturalGasTanker"), (4, "CoastalTradingVessel"), (5, "CrudeOilTanker"), (6, "LiquidBulkTanker"), (7, "VeryLargeCrudeCarrier"), (8, "UltraLargeCrudeCarrier"), (9, "CondensateStorageTanker")] },
    EnumDef { name: "ProtocolFamily", width: 1, default: 0, values: &[(0, "Other"), (1, "EntityInformation"), (2, "Warfare"), (3, "Logistics"), (4, "RadioCommunications"), (5, "SimulationManagement"), (6, "DistributedEmissionRegeneration"), (7, "EntityManagement"), (8, "Minefield"), (9, "SyntheticEnvironment"), (10, "SimulationManagementWithReliability"), (11, "LiveEntityInformationInteraction"), (12, "NonRealTime"), (13, "InformationOperations")] },
    EnumDef { name: "ProtocolVersion", width: 1, default: 7, values: &[(0, "Other"), (1, "DIS_PDUv1"), (2, "IEEE1278_1993"), (3, "DIS_PDUv2_Third_Draft"), (4, "DIS_PDUv2_Fourth_Draft_Revised"), (5, "IEEE1278_1_1995"), (6, "IEEE1278_1A_1998"), (7, "IEEE1278_1_2012")] },
    EnumDef { name: "RadioAttachedIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Unattached"), (2, "Attached")] },
    EnumDef { name: "RadioCategory", width: 1, default: 0, values: &[(0, "Other"), (1, "VoiceTransmissionReception"), (2, "DataLinkTransmissionReception"), (3, "VoiceandDataLinkTransmissionReception"), (4, "InstrumentedLandingSystemGlideslopeTransmitter"), (5, "InstrumentedLandingSystemLocalizerTransmitter"), (6, "InstrumentedLandingSystemOuterMarkerBeacon"), (7, "InstrumentedLandingSystemMiddleMarkerBeacon"), (8, "InstrumentedLandingSystemInnerMarkerBeacon"), (9, "InstrumentedLandingSystem"), (10, "TacticalAirNavigationTACANTransmitter"), (11, "TacticalAirNavigationTACANReceiver"), (12, "TacticalAirNavigationTACANTransmitterReceiver"), (13, "VariableOmniRangingVORTransmitter"), (14, "VariableOmniRangingVORWithDistanceMeasuringEquipmentTransmitter"), (15, "CombinedVORILSReceiver"), (16, "CombinedVORTACANTransmitter"), (17, "NonDirectionalBeaconTransmitter"), (18, "NonDirectionalBeaconReceiver"), (19, "NonDirectionalBeaconWithDistanceMeasuringEquipmentTransmitter"), (20, "DistanceMeasuringEquipment"), (21, "Link16Terminal"), (22, "Link11Terminal"), (23, "Link11BTerminal"), (24, "EPLRSSADLTerminal"), (25, "F22IntraFlightDataLink"), (26, "F35MultifunctionAdvancedDataLink"), (27, "SINCGARSTerminal"), (28, "LBandSATCOMTerminal"), (29, "IBSTerminal"), (30, "GPS"), (31, "TacticalVideo"), (32, "AirtoAirMissileDatalink"), (33, "Link16SurrogateforNonNATOTDLTerminal"), (34, "MQ19CBandLOSDatalink"), (35, "MQ19KuBandSATCOMDatalink"), (36, "AirtoGroundWeaponDatalink"), (37, "AutomaticIdentificationSystem"), (38, "JPALSDataLink"), (40, "CombatSearchandRescueRadio"), (41, "CounterUnmannedAircraftSystemRadio"), (42, "EmergencyPositionIndicatingRadioBeacons"), (50, "ElectronicAttackSystems"), (51, "TacticalTargetingNetworkTechnology")] },
    EnumDef { name: "RadioSubcategory", width: 1, default: 0, values: &[(0, "Other"), (1, "JointElectronicsTypeDesignationSystemNonspecificSeries"), (2, "ManufacturerDesignation"), (3, "NationalDesignation"), (11, "JETDSARCSet1"), (12, "JETDSARCSet2"), (13, "JETDSARCSet3"), (14, "JETDSARCSet4"), (15, "JETDSBRCSet1"), (16, "JETDSBRCSet2"), (17, "JETDSBRCSet3"), (18, "JETDSBRCSet4"), (19, "JETDSCRCSet1"), (20, "JETDSCRCSet2"), (21, "JETDSCRCSet3"), (22, "JETDSCRCSet4"), (23, "JETDSDRCSet1"), (24, "JETDSDRCSet2"), (25, "JETDSDRCSet3"), (26, "JETDSDRCSet4"), (27, "JETDSFRCSet1"), (28, "JETDSFRCSet2"), (29, "JETDSFRCSet3"), (30, "JETDSFRCSet4"), (31, "JETDSGRCSet1"), (32, "JETDSGRCSet2"), (33, "JETDSGRCSet3"), (34, "JETDSGRCSet4"), (35, "JETDSKRCSet1"), (36, "JETDSKRCSet2"), (37, "JETDSKRCSet3"), (38, "JETDSKRCSet4"), (39, "JETDSMRCSet1"), (40, "JETDSMRCSet2"), (41, "JETDSMRCSet3"), (42, "JETDSMRCSet4"), (43, "JETDSPRCSet1"), (44, "JETDSPRCSet2"), (45, "JETDSPRCSet3"), (46, "JETDSPRCSet4"), (47, "JETDSSRCSet1"), (48, "JETDSSRCSet2"), (49, "JETDSSRCSet3"), (50, "JETDSSRCSet4"), (51, "JETDSTRCSet1"), (52, "JETDSTRCSet2"), (53, "JETDSTRCSet3"), (54, "JETDSTRCSet4"), (55, "JETDSVRCSet1"), (56, "JETDSVRCSet2"), (57, "JETDSVRCSet3"), (58, "JETDSVRCSet4"), (59, "JETDSWRCSet1"), (60, "JETDSWRCSet2"), (61, "JETDSWRCSet3"), (62, "JETDSWRCSet4"), (63, "JETDSZRCSet1"), (64, "JETDSZRCSet2"), (65, "JETDSZRCSet3"), (66, "JETDSZRCSet4")] },
    EnumDef { name: "Reason", width: 1, default: 0, values: &[(0, "Other"), (1, "Recess"), (2, "Termination"), (3, "SystemFailure"), (4, "SecurityViolation"), (5, "EntityReconstitution"), (6, "StopForReset"), (7, "StopForRestart"), (8, "AbortTrainingReturnToTacticalOperations")] },
    EnumDef { name: "ReceiverReceiverState", width: 2, default: 0, values: &[(0, "Off"), (1, "Onbutnotreceiving"), (2, "Onandreceiving")] },
    EnumDef { name: "RecordQueryREventType", width: 2, default: 0, values: &[(0, "Periodic"), (1, "InternalEntityStateData")] },
    EnumDef { name: "RecordREventType", width: 1, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "RepairCompleteRepair", width: 2, default: 0, values: &[(0, "NoRepairsPerformed"), (1, "AllRequestedrepairSperformed"), (10, "MotorEngine"), (20, "Starter"), (30, "Alternator"), (40, "Generator"), (50, "Battery"), (60, "EngineCoolantLeak"), (70, "FuelFilter"), (80, "TransmissionOilLeak"), (90, "EngineOilLeak"), (100, "Pumps"), (110, "DriveTrainFilters"), (120, "Transmission"), (130, "Brakes"), (140, "SuspensionSystem"), (150, "OilFilter"), (1000, "Hull"), (1010, "Airframe"), (1020, "TruckBody"), (1030, "TankBody"), (1040, "TrailerBody"), (1050, "Turret"), (1500, "Propeller"), (1520, "EnvironmentFilters"), (1540, "Wheels"), (1550, "Tire"), (1560, "Track"), (2000, "GunElevationDrive"), (2010, "GunStabilizationSystem"), (2020, "GunnersPrimarySight"), (2030, "CommandersExtensionToTheGPS"), (2040, "LoadingMechanism"), (2050, "GunnersAuxiliarySight"), (2060, "GunnersControlPanel"), (2070, "GunnersControlAssemblyHandle"), (2090, "CommandersControlHandlesAssembly"), (2100, "CommandersWeaponStation"), (2110, "CommandersIndependentThermalViewer"), (2120, "GeneralWeapons"), (4000, "FuelTransferPump"), (4010, "FuelLines"), (4020, "Gauges"), (4030, "GeneralFuelSystem"), (4500, "ElectronicWarfareSystems"), (4600, "DetectionSystems"), (4610, "DetectionSystemsRadioFrequency"), (4620, "DetectionSystemsMicrowave"), (4630, "DetectionSystemsInfrared"), (4640, "DetectionSystemsLaser"), (4700, "RangeFinders"), (4710, "RangeOnlyrAdar"), (4720, "LaserRangeFinder"), (4800, "ElectronicSystems"), (4810, "ElectronicsSystemsRadioFrequency"), (4820, "ElectronicsSystemsMicrowave"), (4830, "ElectronicsSystemsInfrared"), (4840, "ElectronicsSystemsLaser"), (5000, "Radios"), (5010, "CommunicationSystems"), (5100, "Intercoms"), (5200, "Encoders"), (5250, "EncryptionDevices"), (5300, "Decoders"), (5350, "DecryptionDevices"), (5500, "Computers"), (6000, "NavigationAndControlSystems"), (6500, "FireControlSystems"), (8000, "AirSupply"), (8010, "LifeSupportSystemsFilters"), (8020, "WaterSupply"), (8030, "RefrigerationSystem"), (8040, "ChemicalBiologicalAndRadiologicalProtection"), (8050, "WaterWashdownSystems"), (8060, "DecontaminationSystems"), (9000, "Watersupply"), (9010, "Coolingsystem"), (9020, "Winches"), (9030, "Catapults"), (9040, "Cranes"), (9050, "Launchers"), (10000, "Lifeboats"), (10010, "Landingcraft"), (10020, "Ejectionseats")] },
    EnumDef { name: "RepairGroups", width: 1, default: 0, values: &[(0, "GeneralRepairCodes"), (1, "DriveTrain"), (2, "HullAirframeBody"), (3, "InterfacesWithEnvironment"), (4, "Weapons"), (5, "FuelSystems"), (6, "Electronics"), (7, "LifeSupportSystems"), (8, "HydraulicSystemsAndActuators"), (9, "AuxiliaryCraft")] },
    EnumDef { name: "RepairResponseRepairResult", width: 1, default: 0, values: &[(0, "Other"), (1, "RepairEnded"), (2, "InvalidRepair"), (3, "RepairInterrupted"), (4, "ServiceCanceledByTheSupplier")] },
    EnumDef { name: "ReplyAmplification", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "Complete"), (2, "Limted"), (3, "UnabletoRespond")] },
    EnumDef { name: "RequiredReliabilityService", width: 1, default: 0, values: &[(0, "Acknowledged"), (1, "Unacknowledged")] },
    EnumDef { name: "RussiaWeaponSubcategories", width: 1, default: 201, values: &[(201, "Automatic9mmStechkin"), (202, "PSM5_45mm"), (203, "Selfloading9mmMakarov"), (204, "TT337_62mmTokarev"), (205, "AssaultrifleAKandAKM7_62mm"), (206, "AssaultrifleAK74andAKS745_45mm"), (207, "Selfloadingrifle7_62mmSimonov"), (208, "SniperrifleSVD7_62mmDragunov"), (209, "AKSU745_45mm"), (210, "PPS437_62mm"), (211, "PPSh417_62mm"), (212, "GeneralpurposePK7_62mm"), (213, "HeavyDShK38andModel384612_7mmDegtyarev"), (214, "HeavyNSV12_7mm"), (215, "LightRPD7_62mm"), (216, "LightRPK7_62mm"), (217, "LightRPK745_45mm"), (218, "HandGrenadeM75"), (219, "HandGrenadeRGD5"), (220, "APHandGrenadeF1"), (221, "ATHandGrenadeRKG3"), (222, "ATHandGrenadeRKG3M"), (223, "ATHandGrenadeRKG3T"), (224, "FragmentationHandGrenadeRGN"), (225, "FragmentationHandGrenadeRGO"), (226, "SmokeHandGrenadeRDG1"), (227, "Plamyalauncher30mmAGS17"), (228, "RiflemountedlauncherBG1540mm"), (229, "LPO50"), (230, "ROKS3"), (231, "CartmountedTPO50"), (232, "GimletSA16"), (233, "GrailSA7"), (234, "GremlinSA14"), (235, "SaggerAT3"), (236, "SaxhornAT7"), (237, "SpigotABAT14"), (238, "SA18"), (239, "SA19"), (240, "Grad1PmanPortableTripodRocketLauncher122mm"), (241, "LightAntiArmorWeaponRPG18"), (242, "LightAntiTankWeaponRPG22"), (243, "MGRPG"), (244, "PortableRocketLauncherRPG16"), (245, "RecoillessGun73mmSPG9"), (246, "VATRocketLauncherRPG7"), (248, "Mon50AntiPersonnelMine"), (249, "RPG29Vampir"), (250, "LaserDesignator"), (251, "AT4Spigot"), (252, "SA24IglaS"), (253, "Type69RPG")] },
    EnumDef { name: "SISOSTD002Version", width: 1, default: 0, values: &[(0, "SISOSTD0022006"), (1, "SISOSTD0022021")] },
    EnumDef { name: "Season", width: 1, default: 0, values: &[(0, "Summer"), (1, "Winter"), (2, "Spring"), (3, "Autumn")] },
    EnumDef { name: "SensorEmitterCategory", width: 1, default: 0, values: &[(0, "Other"), (1, "Multispectral"), (2, "RFActive"), (3, "RFPassive"), (4, "Optical"), (5, "ElectroOptical"), (6, "Seismic"), (7, "Chemicalpointdetector"), (8, "Chemicalstandoff"), (9, "Thermal"), (10, "AcousticActive"), (11, "AcousticPassive"), (12, "ContactPressure"), (13, "ElectroMagneticRadiation"), (14, "ParticleRadiation"), (15, "Magnetic"), (16, "Gravitational")] },
    EnumDef { name: "SensorOnOffStatus", width: 1, default: 0, values: &[(0, "Off"), (1, "On")] },
    EnumDef { name: "SensorRecordSensorTypeOtherActiveSensors", width: 1, default: 0, values: &[(0, "Undefined")] },
    EnumDef { name: "SensorRecordSensorTypePassiveSensors", width: 2, default: 60000, values: &[(60000, "ALR400"), (60001, "ANAAR47"), (60002, "ANAAR50"), (60003, "ANAAR54"), (60004, "ANAAR56"), (60005, "ANAAR57"), (60006, "ANALQ142"), (60007, "ANALR45"), (60008, "ANALR46"), (60009, "ANALR56"), (60010, "ANALR59"), (60011, "ANALR64"), (60012, "ANALR66"), (60013, "ANALR67"), (60014, "ANALR69"), (60015, "ANALR73"), (60016, "ANALR76"), (60017, "ANALR91"), (60018, "ANALR93"), (60019, "ANALR94"), (60020, "ANALR801"), (60021, "ANAPR39"), (60022, "ANAYR2"), (60023, "ARI18223"), (60024, "BOW21"), (60025, "ChaparralIRST"), (60026, "FlankerIRST"), (60027, "FoxbatIRST"), (60028, "FoxhoundIRST"), (60029, "FulcrumIRST"), (60030, "HavocIRST"), (60031, "HindIRST"), (60032, "KJ200"), (60033, "KJ8602"), (60034, "L150Pastel"), (60035, "Serval"), (60036, "Sherloc"), (60037, "Sherlocvf"), (60038, "Sirena2"), (60039, "Sirena3"), (60040, "Sirena3M"), (60041, "SkyGuardian"), (60042, "SPO15"), (60043, "SPS200"), (60044, "Tarang"), (60045, "ANAAQ29A"), (60046, "_101KSUMAW"), (60047, "Abrams2GFFLIR"), (60048, "Abrams3GFFLIR"), (60049, "ANAAQ13LANTIRNFLIR"), (60050, "AN_ALR74"), (60051, "AN_ALR90"), (60052, "ANAPR48"), (60053, "ELT156X"), (60054, "_101KSV"), (60055, "TP23ML"), (60056, "GenericFLIR"), (60057, "GenericIRST"), (60058, "GenericMAWS"), (60059, "GenericRWR"), (60060, "L136Mak"), (60061, "LeonardoSASSIRST"), (60062, "OSFIRST"), (60063, "PirateIRST"), (60064, "RECCELITE"), (60065, "ThalesNederlandSiriusIRST"), (60066, "TornadoRWR"), (60067, "TOES521FLIR"), (60068, "SafranVampir_MB")] },
    EnumDef { name: "SensorTypeSource", width: 1, default: 0, values: &[(0, "OtherActiveSensors"), (1, "Electromagnetic"), (2, "PassiveSensors"), (3, "MinefieldSensors"), (4, "UnderwaterAcoustics"), (5, "Lasers")] },
    EnumDef { name: "SeparationVPPreEntityIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "EntityIDExistedPriortoSeparationwithoutEntityStatePDU"), (2, "EntityIDExistedPriortoSeparationwithEntityStatePDUIssued"), (3, "EntityInitiallyCreatedAtSeparationEvent")] },
    EnumDef { name: "SeparationVPReasonforSeparation", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "AttachedPartSeparation"), (2, "SubmunitionSeparation")] },
    EnumDef { name: "ServiceRequestServiceTypeRequested", width: 1, default: 0, values: &[(0, "Other"), (1, "Resupply"), (2, "Repair"), (3, "AerialRefuelingHighFidelity"), (4, "AerialRefuelingLowFidelity")] },
    EnumDef { name: "SignalEncodingClass", width: 1, default: 0, values: &[(0, "Encodedaudio"), (1, "RawBinaryData"), (2, "ApplicationSpecificData"), (3, "Databaseindex")] },
    EnumDef { name: "SignalEncodingType", width: 1, default: 1, values: &[(1, "_8bitmulaw"), (2, "CVSD"), (3, "ADPCM"), (4, "_16bitLinearPCM2sComplementBigEndian"), (5, "_8bitLinearPCMUnsigned"), (6, "VQ"), (8, "GSMFullRate"), (9, "GSMHalfRate"), (10, "SpeexNarrowBand"), (11, "Opus"), (12, "LPC10"), (100, "_16bitLinearPCM2sComplementLittleEndian")] },
    EnumDef { name: "SignalTDLType", width: 2, default: 0, values: &[(0, "Other"), (1, "PADIL"), (2, "NATOLink1"), (3, "ATDL1"), (4, "Link11B"), (5, "SituationalAwarenessDataLink"), (6, "Link16LegacyFormatJTIDSTADILJ"), (7, "Link16LegacyFormatJTIDSFDLTADILJ"), (8, "Link11"), (9, "IJMS"), (10, "Link4A"), (11, "Link4C"), (12, "TIBS"), (13, "ATL"), (14, "ConstantSource"), (15, "AbbreviatedCommandandControl"), (16, "MILSTAR"), (17, "ATHS"), (18, "OTHGOLD"), (19, "TACELINT"), (20, "WeaponsDataLink"), (21, "AbbreviatedCommandandControl_"), (22, "EnhancedPositionLocationReportingSystem"), (23, "PositionLocationReportingSystem"), (24, "SINCGARS"), (25, "HAVEQUICKI"), (26, "HAVEQUICKII"), (27, "SATURN"), (28, "IntraFlightDataLink1"), (29, "IntraFlightDataLink2"), (30, "ImprovedDataModem"), (31, "AirForceApplicationProgramDevelopment"), (32, "CooperativeEngagementCapability"), (33, "ForwardAreaAirDefense"), (34, "GroundBasedDataLink"), (35, "IntraVehicularInfoSystem"), (36, "MarineTacticalSystem"), (37, "TacticalFireDirectionSystem"), (38, "IntegratedBroadcastService"), (39, "AirborneInformationTransfer"), (40, "AdvancedTacticalAirborneReconnaissanceSystemDataLink"), (41, "BattleGroupPassiveHorizonExtensionSystemDataLink"), (42, "CommonHighBandwidthDataLink"), (43, "GuardrailInteroperableDataLink"), (44, "GuardrailCommonSensorSystemOneDataLink"), (45, "GuardrailCommonSensorSystemTwoDataLink"), (46, "GuardrailCSS2MultiRoleDataLink"), (47, "GuardrailCSS2DirectAirtoSatelliteRelayDataLink"), (48, "LineofSight"), (49, "LightweightCDL"), (50, "L52M"), (51, "RivetReachRivetOwlDataLink"), (52, "SeniorSpan"), (53, "SeniorSpur"), (54, "SeniorStretch_"), (55, "SeniorYearInteroperableDataLink"), (56, "SpaceCDL"), (57, "TR1modeMISTAirborneDataLink"), (58, "KubandSATCOMDataLinkImplementation"), (59, "MissionEquipmentControlDatalink"), (60, "RadarDataTransmittingSetDataLink"), (61, "SurveillanceandControlDataLink"), (62, "TacticalUAVVideo"), (63, "UHFSATCOMDataLinkImplementation"), (64, "TacticalCommonDataLink"), (65, "LowLevelAirPictureInterface"), (66, "WeaponsDataLinkAGM130"), (67, "AutomaticIdentificationSystemAIS"), (68, "WeaponsDataLinkAIM120"), (69, "WeaponsDataLinkAIM9"), (70, "WeaponsDataLinkCAMM"), (99, "GC3"), (100, "Link16StandardizedFormat"), (101, "Link16EnhancedDataRate"), (102, "JTIDSMIDSNetDataLoad"), (103, "Link22"), (104, "AFIWCIADSCommunicationsLinks"), (105, "F22IntraFlightDataLink"), (106, "LBandSATCOM"), (107, "TSAFCommunicationsLink"), (108, "EnhancedSINCGARS7_3"), (109, "F35MultifunctionAdvancedDataLink"), (110, "CursoronTarget"), (111, "AllPurposeStructuredEurocontrolSurveillanceInformationExchange"), (112, "VariableMessageFormat"), (113, "Link16SurrogateforNonNATOTDL"), (114, "MQ19CBandLOSUplink"), (115, "MQ19CBandLOSDownlink"), (116, "MQ19KuBandSATCOMUplink"), (117, "MQ19KuBandSATCOMDownlink"), (118, "WeaponsDatalinkSDBII"), (119, "JTACSAUplink"), (120, "CommonInteractiveBroadcast"), (121, "JointRangeExtensionApplicationProtocolA"), (125, "JPALSDataLink"), (126, "OneSAFIADSCommunicationsLink"), (127, "TacticalTargetingNetworkTechnologyApplication")] },
    EnumDef { name: "SignalUserProtocolIdentificationNumber", width: 4, default: 1, values: &[(1, "CCSIL"), (5, "A2ATDSINCGARSERF"), (6, "A2ATDCAC2"), (20, "BattleCommand"), (30, "AFIWCIADSTrackReport"), (31, "AFIWCIADSCommC2Message"), (32, "AFIWCIADSGroundControlInterceptorCommand"), (35, "AFIWCVoiceTextMessage"), (177, "ModSAFTextRadio"), (200, "CCTTSINCGARSERFLOCKOUT"), (201, "CCTTSINCGARSERFHOPSET"), (202, "CCTTSINCGARSOTAR"), (203, "CCTTSINCGARSDATA"), (546, "ModSAFFWAForwardAirController"), (832, "ModSAFThreatADAC3"), (1000, "F16MTCAFAPDProtocol"), (1100, "F16MTCIDLProtocol"), (1371, "AutomaticIdentificationSystem"), (4570, "ModSAFArtilleryFireControl"), (5361, "AGTS"), (6000, "GC3"), (6010, "WNCPdata"), (6020, "Spokentextmessage"), (6661, "LongbowIDMmessage"), (6662, "ComancheIDMmessage"), (6663, "LongbowAirborneTACFIREMessage"), (6664, "LongbowGroundTACFIREMessage"), (6665, "LongbowAFAPDMessage"), (6666, "LongbowERFmessage"), (7000, "VMFIDM"), (7010, "CSARRadioSurvivorMessage"), (7020, "CSARRadioInterrogatorMessage"), (7030, "ImageFileTransferMessage"), (7040, "GeotagDataMessage"), (7050, "TacticalVideoRegenerationData")] },
    EnumDef { name: "SpaceDomainCategories", width: 1, default: 0, values: &[(0, "Other"), (1, "MannedSpacecraft"), (2, "Unmanned"), (3, "Booster"), (10, "Debris"), (11, "SatelliteUnknownUnspecifiedMission"), (12, "SatelliteCommunication"), (13, "SatelliteNavigation"), (14, "SatelliteScienceExperimentalDemonstration"), (15, "SatelliteInert"), (16, "SatelliteEarthObservation"), (17, "SatelliteSpaceSurveillance"), (18, "SatelliteAstronomy")] },
    EnumDef { name: "SpecificDimensionEnumerationsforAirAreaSize", width: 1, default: 222, values: &[(222, "SmallFlockSwarm"), (223, "SmallFlockSwarmDense"), (224, "MediumFlockSwarm"), (225, "MediumFlockSwarmDense"), (226, "LargeFlockSwarm"), (227, "LargeFlockSwarmDense")] },
    EnumDef { name: "SpecificDimensionEnumerationsforLandAreaSize", width: 1, default: 222, values: &[(222, "SmallArea"), (223, "SmallAreaDense"), (224, "MediumArea"), (225, "MediumAreaDense"), (226, "LargeArea"), (227, "LargeAreaDense")] },
    EnumDef { name: "SpotChaffStatus", width: 1, default: 0, values: &[(0, "None"), (1, "Deployed"), (2, "Malfunction")] },
    EnumDef { name: "SubcategoriesforAirCategory200Bird", width: 1, default: 1, values: &[(1, "Penguin"), (2, "Seagull"), (3, "Pelican"), (4, "Albatross"), (5, "Swan"), (6, "Cormorant"), (7, "Heron"), (8, "Crane"), (9, "Osprey"), (10, "Loon"), (11, "Stork"), (12, "Flamingo"), (13, "Duck"), (20, "Ostrich"), (21, "Emu"), (22, "Chicken"), (30, "BlackBird"), (31, "Starling"), (32, "Budgerigar"), (40, "CanadianGoose"), (41, "Crow"), (50, "Eagle"), (55, "Vulture"), (60, "Falcon"), (65, "Hawk"), (70, "Owl"), (80, "Kite")] },
    EnumDef { name: "SubcategoriesforAirCategory201Insect", width: 1, default: 1, values: &[(1, "Moth"), (2, "Butterfly"), (20, "Fly"), (30, "Mosquito"), (40, "Wasp"), (50, "Bee"), (60, "Beetle"), (70, "Dragonfly"), (80, "Locust")] },
    EnumDef { name: "SubcategoriesforAirCategory202Mammal", width: 1, default: 1, values: &[(1, "Bat"), (10, "FlyingSquirrel"), (20, "GlidingPossum")] },
    EnumDef { name: "SubcategoriesforLandCategory200Mammal", width: 1, default: 1, values: &[(1, "SmallDog"), (2, "Chihuahua"), (10, "MediumDog"), (11, "AustralianCattleDog"), (20, "LargeDog"), (21, "GermanShepherd"), (30, "VeryLargeDog"), (31, "GiantTurkishKangal"), (40, "Sheep"), (41, "Goat"), (50, "Pig"), (60, "Cow"), (61, "Ox"), (70, "OxWithCart"), (80, "Horse"), (81, "Donkey"), (82, "Mule"), (90, "HorseWithRider"), (91, "HorseWithCargo"), (92, "DonkeyWithRider"), (93, "DonkeyWithCargo"), (94, "MuleWithRider"), (95, "MuleWithCargo"), (100, "Camel"), (101, "DromedaryCamel"), (102, "BactrianCamel"), (110, "DromedaryCamelWithRider"), (111, "DromedaryCamelWithCargo"), (200, "Rat")] },
    EnumDef { name: "SubcategoriesforLandCategory201Reptile", width: 1, default: 1, values: &[(1, "NewZealandNorthernTuatara"), (3, "Monitor"), (8, "Gecko"), (13, "Iguana"), (17, "Chameleon"), (30, "NonVenomousSnake"), (31, "Boa"), (35, "Python"), (39, "Bullsnake"), (43, "Kingsnake"), (60, "VenomousSnake"), (61, "Rattlesnake"), (62, "Copperhead"), (63, "Cottonmouth"), (64, "Taipan"), (65, "Viper"), (66, "Cobra"), (67, "AustralianBrownSnake"), (90, "Tortoise"), (100, "Turtle"), (120, "AmericanAlligator"), (121, "Crocodile"), (122, "AustralianFreshwaterCrocodile")] },
    EnumDef { name: "SubcategoriesforLandCategory202Amphibian", width: 1, default: 1, values: &[(1, "Frog"), (2, "Toad"), (170, "Salamander"), (230, "Caecilian")] },
    EnumDef { name: "SubcategoriesforLandCategory203Insect", width: 1, default: 1, values: &[(1, "Beetle"), (60, "Mantis"), (70, "Cockroach"), (80, "ArmyAnt"), (81, "FireAnt"), (90, "Grasshopper"), (100, "Centipede")] },
    EnumDef { name: "SubcategoriesforLandCategory204Arachnid", width: 1, default: 1, values: &[(1, "Spider"), (20, "Tick"), (30, "Scorpion"), (40, "Harvestmen"), (50, "Mite")] },
    EnumDef { name: "SubcategoriesforLandCategory205Mollusk", width: 1, default: 1, values: &[(1, "Snail"), (50, "Slug")] },
    EnumDef { name: "SubcategoriesforLandCategory206Marsupial", width: 1, default: 1, values: &[(1, "BrownFourEyedOpossum"), (2, "BushyTailedOpossum"), (90, "TatesShrewOpossum"), (100, "GreaterBilby"), (110, "TasmanianDevil"), (150, "BrushTailedRockWallaby"), (160, "EasternWallaroo"), (170, "RedKangaroo"), (200, "QueenslandKoala"), (205, "SouthernHairyNosedWombat"), (210, "BrushtailPossum"), (211, "SugarGlider")] },
    EnumDef { name: "SubcategoriesforSubsurfaceCategory200Fish", width: 1, default: 1, values: &[(1, "ForageFishSmallSchooling"), (2, "Herring"), (3, "Sardines"), (4, "Krill"), (5, "Squid"), (30, "MediumSchoolingFish"), (31, "Hake"), (32, "Cod"), (33, "Haddock"), (34, "Mackerel"), (60, "LargeSchoolingFish"), (61, "Tuna"), (90, "SmallShark"), (91, "DogfishShark"), (120, "MediumShark"), (121, "MakoShark"), (122, "HammerheadShark"), (150, "LargeShark"), (151, "GreatWhiteShark"), (152, "TigerShark"), (153, "BlueShark"), (154, "WhaleShark"), (180, "Skate"), (181, "Stingray"), (190, "Eel"), (200, "Marlin"), (201, "Swordfish")] },
    EnumDef { name: "SubcategoriesforSubsurfaceCategory201Mammal", width: 1, default: 1, values: &[(1, "Whale"), (2, "BeakedWhale"), (3, "BelugaWhale"), (4, "BlueWhale"), (5, "BottlenoseWhale"), (6, "NorthernBottlenoseWhale"), (7, "SouthernBottlenoseWhale"), (8, "BowheadWhale"), (9, "BrydesWhale"), (10, "DwarfSpermWhale"), (11, "FinbackWhale"), (12, "GrayWhale"), (13, "HumpbackWhale"), (14, "LongFinnedPilotWhale"), (15, "MinkeWhale"), (16, "NorthernMinkeWhale"), (17, "SouthernMinkeWhale"), (18, "NarwhalWhale"), (19, "OrcaWhale"), (20, "PygmySpermWhale"), (21, "RightWhale"), (22, "NorthAtlanticRightWhale"), (23, "NorthPacificRightWhale"), (24, "SouthernRightWhale"), (25, "SeiWhale"), (26, "ShortFinnedPilotWhale"), (27, "SpermWhale"), (50, "Dolphin"), (51, "BottlenoseDolphin"), (52, "BottlenoseIndoPacificDolphin"), (53, "BottlenoseBurrunanDolphin"), (54, "AtlanticSpottedDolphin"), (55, "AustralianSnubfinDolphin"), (56, "ChileanBlackDolphin"), (57, "ChineseWhiteDolphin"), (58, "ClymeneDolphin"), (100, "Porpoise"), (101, "HarbourPorpoise"), (102, "CalifornianPorpoise"), (103, "DallsPorpoise"), (104, "BurmeistersPorpoise"), (120, "Seal"), (121, "BeardedSeal"), (122, "HarborSeal"), (123, "FurSeal"), (124, "WeddellSeal"), (125, "ElephantSeal"), (130, "SeaLion"), (131, "AustralianSeaLion"), (132, "CaliforniaSeaLion"), (140, "Walrus"), (141, "AtlanticWalrus"), (142, "PacificWalrus"), (150, "Otter"), (151, "SeaOtter"), (160, "Manatee"), (161, "FloridaManatee"), (162, "Dugongs"), (200, "PolarBear")] },
    EnumDef { name: "SubcategoriesforSubsurfaceCategory202Mollusk", width: 1, default: 1, values: &[(1, "Snail"), (10, "Slug"), (20, "Octopus"), (30, "Squid"), (40, "Cuttlefish"), (50, "Clam"), (60, "Muscle"), (70, "Oyster"), (80, "Scallop")] },
    EnumDef { name: "SubcategoriesforSubsurfaceCategory203Crustacean", width: 1, default: 1, values: &[(1, "Shrimp"), (2, "SnappingShrimp"), (10, "Crayfish"), (20, "Lobster"), (30, "Crab")] },
    EnumDef { name: "SubcategoriesforSubsurfaceCategory204Insect", width: 1, default: 1, values: &[(1, "SeaSkater"), (2, "WaterBeetle")] },
    EnumDef { name: "SubsurfaceDomainCategories", width: 1, default: 0, values: &[(0, "Other"), (1, "SSBN"), (2, "SSGN"), (3, "SSN"), (4, "SSG"), (5, "SS"), (6, "SSAN"), (7, "SSA"), (8, "UnmannedUnderwaterVehicle"), (9, "SSB"), (10, "SSC"), (11, "SSP"), (12, "SSM"), (13, "SSNR"), (14, "SST"), (15, "AGSS"), (16, "SemiSubmersibleBoats"), (80, "CivilianSubmarines"), (81, "CivilianSubmersibles"), (82, "CivilianSemiSubmersibleBoats")] },
    EnumDef { name: "SupplyDomain", width: 1, default: 0, values: &[(0, "NotUsed"), (1, "Class1Subsistence"), (2, "Class2ClothingIndividualEquipmentToolsAdminSupplies"), (3, "Class3PetroleumOilsLubricants"), (4, "Class4ConstructionMaterials"), (5, "Class5Ammunition"), (6, "Class6PersonnelDemandItems"), (7, "Class7MajorItems"), (8, "Class8MedicalMaterial"), (9, "Class9RepairPartsandComponents"), (10, "Class10MaterialtoSupportNonMilitaryPrograms"), (11, "Class11Supplies"), (12, "Class12SlingLoads")] },
    EnumDef { name: "SupplyFuelType", width: 1, default: 0, values: &[(0, "Other"), (1, "Gasoline"), (2, "DieselFuel"), (3, "JP4"), (4, "FuelOil"), (5, "JP8"), (6, "FogOil"), (7, "MultiSpectralFogOil"), (8, "JP5"), (9, "JPTS"), (10, "TS1")] },
    EnumDef { name: "SurfaceDomainCategories", width: 1, default: 0, values: &[(0, "Other"), (1, "Carrier"), (2, "CommandShipCruiser"), (3, "GuidedMissileCruiser"), (4, "GuidedMissileDestroyer"), (5, "Destroyer"), (6, "GuidedMissileFrigate"), (7, "LightPatrolCraft"), (8, "MineCountermeasureShipCraft"), (9, "DockLandingShip"), (10, "TankLandingShip"), (11, "LandingCraft"), (12, "LightCarrier"), (13, "CruiserHelicopterCarrier"), (14, "Hydrofoil"), (15, "AirCushionSurfaceEffect"), (16, "Auxiliary"), (17, "AuxiliaryMerchantMarine"), (18, "Utility"), (19, "UnmannedSurfaceVehicle"), (20, "LittoralCombatShips"), (21, "SurveillanceShip"), (50, "Frigate"), (51, "Battleship"), (52, "HeavyCruiser"), (53, "DestroyerTender"), (54, "AmphibiousAssaultShip"), (55, "AmphibiousCargoShip"), (56, "AmphibiousTransportDock"), (57, "AmmunitionShip"), (58, "CombatStoresShip"), (59, "SurveillanceTowedArraySonarSystem"), (60, "FastCombatSupportShip"), (61, "NonCombatantShip"), (62, "CoastGuardCutters"), (63, "CoastGuardBoats"), (64, "FastAttackCraft"), (65, "InflatableBoat"), (80, "PassengerVessel"), (81, "DryCargoShip"), (82, "Tanker"), (83, "OffshoreSupportVessel"), (84, "PrivateMotorboat"), (85, "PrivateSailboat"), (86, "FishingVessel"), (87, "OtherVessels"), (100, "SearchandRescueVessels"), (101, "LifeSavingEquipment")] },
    EnumDef { name: "SurveillanceStatus", width: 1, default: 0, values: &[(0, "NoInformation"), (1, "EmergencyLossofCommunications"), (2, "SPI"), (3, "ATCRBSCodeChange")] },
    EnumDef { name: "TCASACASBasicAdvancedIndicator", width: 1, default: 0, values: &[(0, "Basic"), (1, "Advanced")] },
    EnumDef { name: "TCASACASIndicator", width: 1, default: 0, values: &[(0, "TCAS"), (1, "ACAS")] },
    EnumDef { name: "TCASACASSoftwareVersion", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "_6_0_2"), (2, "_7_0")] },
    EnumDef { name: "TCASACASType", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "ACASI"), (2, "ACASII")] },
    EnumDef { name: "TCASIIIType", width: 1, default: 0, values: &[(0, "TCASI"), (1, "TCASII")] },
    EnumDef { name: "TILinkType", width: 1, default: 0, values: &[(0, "NotUsed"), (1, "GroundInitiatedCommunicationsB"), (2, "AutomaticDependentSurveillance"), (3, "GlobalNavigationSatelliteSystem"), (4, "DataLinkInitiationCapability"), (5, "AircraftCommunicationsAddressingandReportingSystem"), (6, "ATCCommunicationsManagement"), (7, "VHFDigitalLink"), (8, "AeronauticalTelecommunicationNetwork"), (9, "ModeSelect"), (10, "AirborneCollisionAvoidanceSystems"), (11, "TrafficCollisionAvoidanceSystems"), (12, "AutomaticDependentSurveillanceB")] },
    EnumDef { name: "TimeSlotAllocationLevel", width: 1, default: 0, values: &[(0, "LowFidelityLevel0"), (1, "LowFidelityLevel1"), (2, "MediumFidelityLevel2"), (3, "MediumFidelityLevel3"), (4, "HighFidelityLevel4")] },
    EnumDef { name: "TimeTypeSource", width: 1, default: 0, values: &[(0, "ComputeLocally"), (1, "EvenSecond"), (2, "OddSecond")] },
    EnumDef { name: "TransferControlTransferType", width: 1, default: 0, values: &[(0, "Other"), (1, "PushTransferEntity"), (2, "AutomaticPullTransferEntity"), (4, "PushTransferEnvironmentalProcess"), (5, "AutomaticPullTransferEnvironmentalProcess"), (7, "CancelTransfer"), (8, "ManualPullTransferEntity"), (9, "ManualPullTransferEnvironmentalProcess"), (10, "RemoveEntity")] },
    EnumDef { name: "TransferredEntityIndicator", width: 1, default: 0, values: &[(0, "NoDifference"), (1, "Difference")] },
    EnumDef { name: "TransmissionIndicator", width: 1, default: 0, values: &[(0, "NoStatement"), (1, "OriginalInterrogation"), (2, "InterrogationReply"), (3, "SquitterTransmission")] },
    EnumDef { name: "TransmitterAntennaPatternReferenceSystem", width: 1, default: 1, values: &[(1, "WorldCoordinates"), (2, "EntityCoordinates")] },
    EnumDef { name: "TransmitterAntennaPatternType", width: 2, default: 0, values: &[(0, "Isotropic"), (1, "Beam"), (2, "Sphericalharmonic"), (4, "TransmitterRadiationVolume"), (5, "BeamandTransmitterRadiationVolume"), (6, "Omnidirectional")] },
    EnumDef { name: "TransmitterCryptoSystem", width: 2, default: 0, values: &[(0, "NoEncryptionDevice"), (1, "KY28"), (2, "KY58"), (3, "NarrowSpectrumSecureVoice"), (4, "WideSpectrumSecureVoice"), (5, "SINCGARSICOM"), (6, "KY75"), (7, "KY100"), (8, "KY57"), (9, "KYV5"), (10, "Link11KG40AP"), (11, "Link11BKG40AS"), (12, "Link11KG40AR"), (13, "KGV135A"), (14, "TacticalSecureVoice")] },
    EnumDef { name: "TransmitterDetailAmplitudeModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "AFSK"), (2, "AM"), (3, "CW"), (4, "DSB"), (5, "ISB"), (6, "LSB"), (7, "SSBFull"), (8, "SSBReduc"), (9, "USB"), (10, "VSB")] },
    EnumDef { name: "TransmitterDetailAmplitudeandAngleModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "AmplitudeandAngle")] },
    EnumDef { name: "TransmitterDetailAngleModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "FM"), (2, "FSK"), (3, "PM"), (4, "MSK")] },
    EnumDef { name: "TransmitterDetailCarrierPhaseShiftModulation", width: 2, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "TransmitterDetailCombinationModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "AmplitudeAnglePulse")] },
    EnumDef { name: "TransmitterDetailPulseModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "Pulse"), (2, "XBandTACANPulse"), (3, "YBandTACANPulse")] },
    EnumDef { name: "TransmitterDetailSATCOMModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "NoDelay")] },
    EnumDef { name: "TransmitterDetailUnmodulatedModulation", width: 2, default: 0, values: &[(0, "Other"), (1, "ContinuousWaveemissionofanunmodulatedcarrier")] },
    EnumDef { name: "TransmitterInputSource", width: 1, default: 0, values: &[(0, "Other"), (1, "Pilot"), (2, "Copilot"), (3, "FirstOfficer"), (4, "Driver"), (5, "Loader"), (6, "Gunner"), (7, "Commander"), (8, "DigitalDataDevice"), (9, "Intercom"), (10, "AudioJammer"), (11, "DataJammer"), (12, "GPSJammer"), (13, "GPSMeaconer"), (14, "SATCOMUplinkJammer")] },
    EnumDef { name: "TransmitterMajorModulation", width: 2, default: 0, values: &[(0, "NoStatement"), (1, "Amplitude"), (2, "AmplitudeandAngle"), (3, "Angle"), (4, "Combination"), (5, "Pulse"), (6, "Unmodulated"), (7, "CarrierPhaseShiftModulation"), (8, "SATCOM")] },
    EnumDef { name: "TransmitterModulationTypeSystem", width: 2, default: 0, values: &[(0, "Other"), (1, "GenericRadioorSimpleIntercom"), (2, "HAVEQUICKI"), (3, "HAVEQUICKII"), (4, "SATURN"), (5, "SINCGARS"), (6, "CCTTSINCGARS"), (7, "EPLRS"), (8, "JTIDSMIDS"), (9, "Link11"), (10, "Link11B"), (11, "LBandSATCOM"), (12, "EnhancedSINCGARS7_3"), (13, "NavigationAid")] },
    EnumDef { name: "TransmitterTransmitState", width: 1, default: 0, values: &[(0, "Off"), (1, "Onbutnottransmitting"), (2, "Onandtransmitting")] },
    EnumDef { name: "TransponderInterrogatorIndicator", width: 1, default: 0, values: &[(0, "Transponder"), (1, "Interrogator")] },
    EnumDef { name: "TurnRateSource", width: 1, default: 0, values: &[(0, "ComputeLocally"), (1, "LessThan1DegreeTurnorNotTurning"), (2, "_1DegreeorGreaterTurnRate")] },
    EnumDef { name: "UAAcousticEmitterSystemFunction", width: 1, default: 0, values: &[(0, "Other"), (1, "Platformsearchdetecttrack"), (2, "Navigation"), (3, "Minehunting"), (4, "Weaponsearchdetecttrackdetect")] },
    EnumDef { name: "UAAcousticSystemName", width: 2, default: 0, values: &[(0, "Other"), (1, "ANBQQ5"), (2, "ANSSQ62"), (3, "ANSQS23"), (4, "ANSQS26"), (5, "ANSQS53"), (6, "ALFS"), (7, "LFA"), (8, "ANAQS901"), (9, "ANAQS902")] },
    EnumDef { name: "UAActiveEmissionParameterIndex", width: 2, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "UAAdditionalPassiveActivityParameterIndex", width: 2, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "UAPassiveParameterIndex", width: 2, default: 0, values: &[(0, "Other")] },
    EnumDef { name: "UAPropulsionPlantConfigurationConfiguration", width: 1, default: 0, values: &[(0, "Other"), (1, "DieselElectric"), (2, "Diesel"), (3, "Battery"), (4, "TurbineReduction"), (6, "Steam"), (7, "GasTurbine")] },
    EnumDef { name: "UAScanPattern", width: 2, default: 0, values: &[(0, "Scanpatternnotused"), (1, "Conical"), (2, "Helical"), (3, "Raster"), (4, "Sectorsearch"), (5, "Continuoussearch")] },
    EnumDef { name: "UAStateChangeUpdateIndicator", width: 1, default: 0, values: &[(0, "StateUpdate"), (1, "ChangedDataUpdate")] },
    EnumDef { name: "UKWeaponSubcategories", width: 1, default: 1, values: &[(1, "LAW80"), (2, "Blowpipe"), (3, "Javelin"), (4, "_51mmmortar"), (5, "SLR7_62mmrifle"), (6, "Sterling9mmsubmachinegun"), (7, "L7A2generalpurposeMG"), (8, "L6WombatRecoillessrifle"), (9, "CarlGustav89mmrecoillessrifle"), (10, "SA80Individuallightsupportweapon"), (11, "Trigat"), (12, "MilanATmissile")] },
    EnumDef { name: "USWeaponSubcategories", width: 1, default: 1, values: &[(1, "AssaultMachinePistolKFAMP"), (2, "AutomaticModel1911A1_45"), (3, "CombatMasterMarkVI_45Detronics"), (4, "DecockerKP90DC_45"), (5, "DecockerKP91DC_40"), (6, "GeneralOfficersModel15_45"), (7, "Nova9mmLaFrance"), (8, "PersonalDefenseWeaponMP5KPDW9mm"), (9, "SilencedColt_45LaFrance"), (10, "_5900Series9mmSmithWessonSW"), (11, "M9"), (12, "Model1911A1SpringfieldArmory"), (13, "Model20009mm"), (14, "P99mmSpringfieldArmory"), (15, "P129mm"), (16, "P85MarkII9mmRuger"), (17, "AdvancedCombatRifle5_56mmAAI"), (18, "CommandoAssaultRifleModel7335_56mmColt"), (19, "InfantryRifleMini1420GB5_56mmRuger"), (20, "Mini145_56mmRuger"), (21, "MiniThirty7_62mmRuger"), (22, "SemiAutomaticModel82A2_50Barrett"), (23, "SniperWeaponSystemM247_62mm"), (24, "SnipingRifleM21SpringfieldArmory"), (25, "SnipingRifleM40A17_62mm"), (26, "SnipingRifleM6007_62mm"), (27, "AR15M165_56mm"), (28, "M1_30_1"), (29, "M147_62mmNATO"), (30, "M14M1AM1A1A1SpringfieldArmory"), (31, "M14KAssaultRifleLaFrance"), (32, "M16A2AssaultRifle5_56mmColt"), (33, "M217_62mmU_S_"), (34, "M77MarkII5_56mmRuger"), (35, "M77V7_62mmRuger"), (36, "S167_62x36mmGrendel"), (37, "SAR87_62mm"), (38, "SAR48007_62mm"), (39, "AssaultCarbineM16KLaFrance"), (40, "M1_30_2"), (41, "M4Model7205_56mmColt"), (42, "M9009mmCalico"), (43, "AC556F5_56mmRuger"), (44, "M3_45"), (45, "M11Cobray"), (46, "M9519mmCalico"), (47, "MP51010mm"), (48, "_9mmColt"), (49, "Ingram"), (50, "ExternallyPoweredEPG7_62mmAres"), (51, "GECAL50"), (52, "GeneralPurposeM607_62mm"), (53, "HeavyM2HBQCB_50RAMO"), (54, "LightassaultM60E3Enhanced7_62mm"), (55, "LightM16A25_56mmColt"), (56, "Light5_56mmAres"), (57, "LightweightM2_50RAMO"), (58, "LightweightAssaultM60E37_62mm"), (59, "MinigunM1347_62mmGeneralElectric"), (60, "MGsystemMK19Mod340mm"), (61, "MGsystemorkitM2HBQCB_50SacoDefense"), (62, "M1919A4_30calBrowning"), (63, "_50calBrowning"), (64, "ColoredSmokeHandGrenadeM18"), (65, "ColoredSmokeGrenadesFederalLaboratories"), (66, "InfraredSmokeGrenadeM76"), (67, "SmokeHandGrenadeANM8HC"), (68, "DelayFragmentationHandGrenadeM61"), (69, "DelayFragmentationHandGrenadeM67"), (70, "ImpactFragmentationHandGrenadeM57"), (71, "ImpactFragmentationHandGrenadeM68"), (72, "IncendiaryHandGrenadeANM14TH3"), (73, "LauncherIM20340mm"), (74, "LauncherM7940mm"), (75, "MultipleGrenadeLauncherMM140mm"), (76, "MultiShotPortableFlameWeaponM202A266mm"), (77, "PortableABCM97"), (78, "PortableM2A17"), (79, "PortableM9E17"), (80, "DragonMediumAntiArmorMissileM47FGM77A"), (81, "JavelinAAWSM"), (82, "LightAntiTankWeaponM72LAWII"), (83, "RedeyeFIM43GeneralDynamics"), (84, "SaberDualPurposeMissileSystem"), (85, "StingerFIM92GeneralDynamics"), (86, "TOWheavyAntiTankweapon"), (87, "BearTrapAPDevicePancor"), (88, "ChainGunAutomaticWeaponEX347_62mm"), (89, "CloseAssaultWeaponSystemCAWSAAI"), (90, "CAWSOlinHecklerAndKoch"), (91, "CrossfireSAMModel88"), (92, "DragonAndM16"), (93, "FiringPortWeaponM2315_56mmColt"), (94, "FoxholeDiggerExplosiveKitEXFODA"), (95, "InfantrySupportWeaponASP30RM30mm"), (96, "JackhammerMk3A2Pancor"), (97, "LightAntiArmorWeaponM136AT4"), (98, "M26A2"), (99, "MasterKeyS"), (100, "Minigun5_56mm"), (101, "MultipurposeIndividualMunitionMPIMMarquardt"), (102, "MultipurposeWeaponAT8"), (103, "RecoillessRifleM40M40A2andM40A4106mm"), (104, "RecoillessRifleM6790mm"), (105, "RevolverSP101"), (106, "RevolverSuperRedhawk_44MagnumRuger"), (107, "RAWRocket140mmBrunswick"), (108, "RifleLauncherAntiArmorMunitionRAAMOlin"), (109, "RocketLauncherM203_5in"), (110, "RocketLauncherEnhancedM72EseriesHEAT66mm"), (111, "SelectiveFireWeaponAC5565_56mmRuger"), (112, "SelectiveFireWeaponAC556F5_56mmRuger"), (113, "ShotgunM870Mk1U_S_MarineCorpsRemington"), (114, "SMAWMk19383mmMcDonnellDouglas"), (115, "SMAWDDisposableSMAW"), (116, "SquadAutomaticWeaponSAWM2495_56mm"), (117, "TacticalSupportWeapon5012_50calPeregrine"), (118, "TelescopedAmmunitionRevolverGunTARG_50calAres"), (119, "UltimateOverUnderCombinationCiener"), (120, "M18A1ClaymoreMine"), (121, "Mortar81mm"), (134, "MachinegunM2407_62mm")] },
    EnumDef { name: "VariableParameterRecordType", width: 1, default: 0, values: &[(0, "ArticulatedPart"), (1, "AttachedPart"), (2, "Separation"), (3, "EntityType"), (4, "EntityAssociation")] },
    EnumDef { name: "VariableRecordTypes", width: 4, default: 1, values: &[(1, "EntityIDList"), (1001, "DDCPJoinTransactionJoinRequestMessage"), (1002, "DDCPSetPlaybackWindowTransactionSetPlaybackWindowRequestMessage"), (1003, "DDCPLoadMissionRecordingTransactionLoadMissionRecordingRequestMessage"), (1004, "DDCPCueTransactionCueRequestMessage"), (1005, "DDCPPlayTransactionPlayRequestMessage"), (1006, "DDCPStopTransactionStopRequestMessage"), (1007, "DDCPPauseTransactionPauseRequestMessage"), (1009, "DDCPEndTransactionEndRequestMessage"), (1051, "DDCPJoinResponseMessage"), (1052, "DDCPRequestReceiptMessage"), (1053, "DDCPPlaybackWindowConfirmedMessage"), (1054, "DDCPMissionRecordingLoadedMessage"), (1055, "DDCPCueConfirmedMessage"), (1056, "DDCPTimetoCompleteMessage"), (1057, "DDCPPlayCommencedMessage"), (1058, "DDCPStopConfirmedMessage"), (1059, "DDCPPauseConfirmedMessage"), (1061, "DDCPEndResponseMessage"), (1111, "DDCPMasterAnnounceMessage"), (1112, "DDCPDeviceAnnounceMessage"), (1114, "DDCPDeviceExitMessage"), (1115, "DDCPDeviceHeartbeatMessage"), (1116, "DDCPMasterTimeSyncMessage"), (1118, "DDCPErrorMessage"), (1119, "DDCPMasterStopSyncMessage"), (1120, "DDCPMasterTransitionMessage"), (1200, "MissionTime"), (3000, "HighFidelityHAVEQUICKSATURNRadio"), (3500, "BlankingSectorattributerecord"), (3501, "AngleDeceptionattributerecord"), (3502, "FalseTargetsattributerecord"), (4000, "DEPrecisionAimpointrecord"), (4001, "DEAreaAimpointrecord"), (4500, "DirectedEnergyDamageDescriptionrecord"), (5000, "CryptoControl"), (5001, "Mode5STransponderLocation"), (5002, "Mode5STransponderLocationError"), (5003, "SquitterAirbornePositionReport"), (5004, "SquitterAirborneVelocityReport"), (5005, "SquitterSurfacePositionReport"), (5006, "SquitterIdentificationReport"), (5007, "GICB"), (5008, "SquitterEventDrivenReport"), (5009, "AntennaLocation"), (5010, "BasicInteractive"), (5011, "InteractiveMode4Reply"), (5012, "InteractiveMode5Reply"), (5013, "InteractiveBasicMode5"), (5014, "InteractiveBasicModeS"), (5500, "IOEffect"), (5501, "IOCommunicationsNode"), (10000, "Identification1"), (10010, "TrainerInitialConditionsFilename"), (10020, "Increment3_1MissionDataLoadName"), (10030, "Increment2MissionDataLoadName"), (10110, "SetMarkpointCommand"), (10115, "MarkpointID"), (10140, "ReactionLevel"), (10150, "WeaponReload"), (10157, "CESEntitySetClearStatus"), (10160, "ActivateEntity"), (10170, "DisengageReengage1"), (10190, "FuelFreeze"), (10250, "FireLaunchDispense"), (10254, "TargetAssignment"), (10256, "CICEnable"), (10258, "ShootInhibit"), (10259, "Posture"), (10262, "JammerState"), (10263, "JammerType"), (10264, "DynamicTargeting"), (10267, "ManualJammingOnOverride"), (10268, "SOJAxis"), (10280, "EmitterOverride1"), (10290, "Shields1"), (10300, "CrashOverride"), (10306, "StopBuzzer"), (10307, "TargetLasingOnOff"), (10308, "TargetLasingLaserCode"), (10310, "PowerPlant"), (10311, "TacticalLightingOnOffControlLightControl"), (10312, "TacticalLightingBlinkerControlBlinkerValue"), (10313, "TacticalLightingOnOffControlLightControlType"), (10314, "ParkVehicle"), (10315, "SignalingOnOff"), (10316, "SignalingDevice"), (10400, "OwnshipID"), (10600, "StateChange"), (11000, "EntityType1"), (11100, "Concatenated"), (11110, "Kind"), (11120, "Domain"), (11130, "Country"), (11140, "Category"), (11150, "Subcategory"), (11160, "Specific"), (11170, "Extra"), (11180, "ForceID1"), (11200, "ForceID2"), (11300, "Description"), (11500, "TankerBoomControl"), (11501, "AirportLights"), (11502, "WeatherPost"), (11503, "LocalizerandGlideSlope"), (11504, "TACANNavAids"), (12000, "AlternativeEntityType1"), (12110, "Kind2"), (12120, "Domain2"), (12130, "Country2"), (12140, "Category2"), (12150, "Subcategory2"), (12160, "Specific2"), (12170, "Extra2"), (12300, "Description2"), (13000, "EntityMarking"), (13100, "EntityMarkingCharacters"), (13200, "CrewID"), (14000, "TaskOrganization"), (14200, "RegimentName"), (14300, "BattalionName"), (14400, "CompanyName"), (14500, "PlatoonName"), (14520, "SquadName"), (14540, "TeamName"), (14600, "BumperNumber"), (14700, "VehicleNumber"), (14800, "UnitNumber"), (15000, "DISIdentity"), (15100, "DISSiteID"), (15200, "DISHostID"), (15300, "DISEntityID"), (15400, "MountIntent"), (15500, "TetherUnthetherCommandID"), (15510, "TeleportEntityDataRecord"), (15600, "DISAggregateID"), (15800, "OwnershipStatus"), (19177, "Reconstitute"), (20000, "Loads"), (21000, "CrewMembers"), (21100, "CrewMemberID"), (21200, "Health"), (21300, "JobAssignment"), (23000, "Fuel"), (23100, "Quantity1"), (23105, "Quantity2"), (24000, "Ammunition"), (24001, "_120mmHEATquantity"), (24002, "_120mmSABOTquantity"), (24003, "_12_7mmM8quantity"), (24004, "_12_7mmM20quantity"), (24005, "_7_62mmM62quantity"), (24006, "M250UKL8A1quantity"), (24007, "M250UKL8A3quantity"), (24008, "_7_62mmM80quantity"), (24009, "_12_7mmquantity"), (24010, "_7_62mmquantity"), (24060, "Minesquantity"), (24100, "Type"), (24110, "Kind3"), (24120, "Domain3"), (24130, "Country3"), (24140, "Category3"), (24150, "Subcategory3"), (24160, "Extra3"), (24300, "Description3"), (25000, "Cargo"), (26000, "VehicleMass"), (27000, "SupplyQuantity"), (28000, "Armament"), (30000, "Status"), (30010, "Activateentity"), (30100, "SubscriptionState"), (30300, "Roundtriptimedelay"), (30400, "TADILJmessagecountLabel0"), (30401, "TADILJmessagecountLabel1"), (30402, "TADILJmessagecountLabel2"), (30403, "TADILJmessagecountLabel3"), (30404, "TADILJmessagecountLabel4"), (30405, "TADILJmessagecountLabel5"), (30406, "TADILJmessagecountLabel6"), (30407, "TADILJmessagecountLabel7"), (30408, "TADILJmessagecountLabel8"), (30409, "TADILJmessagecountLabel9"), (30410, "TADILJmessagecountLabel10"), (30411, "TADILJmessagecountLabel11"), (30412, "TADILJmessagecountLabel12"), (30413, "TADILJmessagecountLabel13"), (30414, "TADILJmessagecountLabel14"), (30415, "TADILJmessagecountLabel15"), (30416, "TADILJmessagecountLabel16"), (30417, "TADILJmessagecountLabel17"), (30418, "TADILJmessagecountLabel18"), (30419, "TADILJmessagecountLabel19"), (30420, "TADILJmessagecountLabel20"), (30421, "TADILJmessagecountLabel21"), (30422, "TADILJmessagecountLabel22"), (30423, "TADILJmessagecountLabel23"), (30424, "TADILJmessagecountLabel24"), (30425, "TADILJmessagecountLabel25"), (30426, "TADILJmessagecountLabel26"), (30427, "TADILJmessagecountLabel27"), (30428, "TADILJmessagecountLabel28"), (30429, "TADILJmessagecountLabel29"), (30430, "TADILJmessagecountLabel30"), (30431, "TADILJmessagecountLabel31"), (31000, "Position"), (31010, "Routetype"), (31100, "MilGrid10"), (31200, "GeocentricCoordinates"), (31210, "X"), (31220, "Y"), (31230, "Z"), (31300, "Latitude1"), (31400, "Longitude1"), (31500, "LineofSight"), (31510, "X1"), (31520, "Y1"), (31530, "Z1"), (31600, "Altitude2"), (31700, "DestinationLatitude"), (31800, "DestinationLongitude"), (31900, "DestinationAltitude"), (32000, "Orientation"), (32100, "HullHeadingAngle"), (32200, "HullPitchAngle"), (32300, "RollAngle"), (32500, "X2"), (32600, "Y2"), (32700, "Z2"), (33000, "Appearance"), (33100, "AmbientLighting"), (33101, "Lights1"), (33200, "PaintScheme"), (33300, "Smoke"), (33400, "TrailingEffects"), (33500, "Flaming"), (33600, "Marking"), (33710, "MinePlowsAttached"), (33720, "MineRollersAttached"), (33730, "TankTurretAzimuth"), (34000, "FailuresandMalfunctions"), (34100, "Age"), (34110, "Kilometers"), (35000, "Damage"), (35050, "Cause"), (35100, "MobilityKill1"), (35200, "FirePowerKill"), (35300, "PersonnelCasualties"), (36000, "Velocity"), (36100, "Xvelocity"), (36200, "Yvelocity"), (36300, "Zvelocity"), (36400, "Speed1"), (37000, "Acceleration"), (37100, "Xacceleration"), (37200, "Yacceleration"), (37300, "Zacceleration"), (38100, "EngineStatus"), (39000, "PrimaryTargetLine"), (40000, "Exercise"), (40010, "ExerciseState"), (40015, "RestartRefresh"), (40020, "AFATDSFileName"), (41000, "TerrainDatabase"), (42000, "Missions"), (42100, "MissionID"), (42200, "MissionType"), (42300, "MissionRequestTimeStamp"), (43000, "ExerciseDescription"), (43100, "Name"), (43200, "Entities"), (43300, "Version"), (43410, "GuiseMode"), (43420, "SimulationApplicationActiveStatus"), (43430, "SimulationApplicationRoleRecord"), (43440, "SimulationApplicationState"), (44000, "VisualOutputMode"), (44100, "SimulationManagerRole"), (44110, "SimulationManagerSiteID"), (44120, "SimulationManagerApplicID"), (44130, "SimulationManagerEntityID"), (44140, "SimulationManagerActiveStatus"), (44200, "AfterActiveReviewRole"), (44210, "AfterActiveReviewSiteID"), (44220, "AfterActiveApplicID"), (44230, "AfterActiveReviewEntityID"), (44240, "AfterActiveReviewActiveStatus"), (44300, "ExerciseLoggerRole"), (44310, "ExerciseLoggerSiteID"), (44320, "ExerciseLoggerApplicID"), (44330, "ExerciseEntityID"), (44340, "ExerciseLoggerActiveStatus"), (44400, "SyntheticEnvironmentManagerRole"), (44410, "SyntheticEnvironmentManagerSiteID"), (44420, "SyntheticEnvironmentManagerApplicID"), (44430, "SyntheticEnvironmentManagerEntityID"), (44440, "SyntheticEnvironmentManagerActiveStatus"), (44500, "SIMNETDISTranslatorRole"), (44510, "SIMNETDISTranslatorSiteID"), (44520, "SIMNETDISTranslatorApplicID"), (44530, "SIMNETDISTranslatorEntityID"), (44540, "SIMNETDISTranslatorActiveStatus"), (45000, "ApplicationRate"), (45005, "ApplicationTime"), (45010, "ApplicationTimestep"), (45020, "FeedbackTime"), (45030, "SimulationRate"), (45040, "SimulationTime"), (45050, "SimulationTimestep"), (45060, "TimeInterval"), (45070, "TimeLatency"), (45080, "TimeScheme"), (46000, "ExerciseElapsedTime"), (46010, "ElapsedTime"), (50000, "Environment"), (50103, "ScenarioDate"), (50106, "TimeDateValid"), (50118, "ScenarioTime"), (50120, "SnowEnableDisable"), (50124, "WeatherAttributesRequest"), (50126, "METHeartbeatMessage"), (50600, "ContrailsEnable"), (50700, "ContrailAltitudes"), (51000, "Weather1"), (51010, "WeatherCondition"), (51100, "ThermalCondition"), (51110, "ThermalVisibility1"), (51111, "ThermalVisibility2"), (52000, "Time1"), (52001, "Time2"), (52100, "TimeofDayDiscrete"), (52200, "TimeofDayContinuous"), (52300, "TimeMode"), (52305, "TimeScene"), (52310, "CurrentHour"), (52320, "CurrentMinute"), (52330, "CurrentSecond"), (52340, "Azimuth1"), (52350, "MaximumElevation"), (52360, "TimeZone"), (52370, "TimeRate"), (52380, "TheNumberOfSimulationSecondsSinceTheStartOfTheExercise"), (52400, "TimeSunriseEnabled"), (52410, "SunriseHour"), (52420, "SunriseMinute"), (52430, "SunriseSecond"), (52440, "SunriseAzimuth"), (52500, "TimeSunsetEnabled"), (52510, "SunsetHour1"), (52511, "SunsetHour2"), (52520, "SunsetMinute"), (52530, "SunsetSecond"), (52600, "Date1"), (52601, "DateEuropean"), (52602, "DateUS"), (52610, "Month"), (52620, "Day"), (52630, "Year"), (53000, "Clouds"), (53050, "CloudLayerEnable"), (53060, "CloudLayerSelection"), (53100, "Visibility"), (53200, "BaseAltitude1"), (53250, "BaseAltitude2"), (53300, "Ceiling1"), (53350, "Ceiling2"), (53400, "Characteristics"), (53410, "ConcentrationLength"), (53420, "Transmittance"), (53430, "Radiance"), (54000, "Precipitation"), (54100, "Rain"), (55000, "Fog"), (55100, "Visibility1"), (55101, "Visibility2"), (55105, "Visibility3"), (55200, "Density1"), (55300, "Base"), (55401, "ViewLayerfromabove_"), (55410, "TransitionRange"), (55420, "Bottom1"), (55425, "Bottom2"), (55430, "Ceiling3"), (55435, "Ceiling4"), (56000, "HeavenlyBodies"), (56100, "Sun"), (56105, "SunVisible"), (56110, "Position1"), (56111, "SunPositionElevationDegrees"), (56120, "PositionAzimuth1"), (56121, "SunPositionAzimuthDegrees"), (56130, "PositionElevation1"), (56140, "PositionIntensity1"), (56200, "Moon"), (56205, "MoonVisible"), (56210, "Position2"), (56220, "PositionAzimuth2"), (56221, "MoonPositionAzimuthDegrees"), (56230, "PositionElevation2"), (56231, "MoonPositionElevationDegrees"), (56240, "PositionIntensity2"), (56310, "Horizon"), (56320, "HorizonAzimuth"), (56330, "HorizonElevation"), (56340, "HorizonHeading"), (56350, "HorizonIntensity"), (57200, "Humidity"), (57300, "Visibility4"), (57400, "Winds"), (57410, "Speed2"), (57411, "WindSpeedKnots"), (57420, "WindDirection1"), (57421, "WindDirectionDegrees"), (57500, "Rainsoak"), (57610, "TideSpeed"), (57611, "TideSpeedKnots"), (57620, "TideDirection"), (57621, "TideDirectionDegrees"), (58000, "Haze"), (58100, "Visibility5"), (58105, "Visibility6"), (58200, "Density2"), (58430, "Ceiling5"), (58435, "Ceiling6"), (59000, "ContaminantsandObscurants"), (59100, "ContaminantObscurantType"), (59110, "Persistence"), (59115, "ChemicalDosage"), (59120, "ChemicalAirConcentration"), (59125, "ChemicalGroundDeposition"), (59130, "ChemicalMaximumGroundDeposition"), (59135, "ChemicalDosageThreshold"), (59140, "BiologicalDosage"), (59145, "BiologicalAirConcentration"), (59150, "BiologicalDosageThreshold"), (59155, "BiologicalBinnedParticleCount"), (59160, "RadiologicalDosage"), (60000, "Communications"), (61005, "FireBottleReload"), (61100, "ChannelType1"), (61101, "ChannelType2"), (61200, "ChannelIdentification"), (61300, "AlphaIdentification"), (61400, "RadioIdentification"), (61500, "LandLineIdentification"), (61600, "IntercomIdentification"), (61700, "GroupNetworkChannelNumber"), (62100, "RadioCommunicationsStatus"), (62101, "BoomInterphone"), (62200, "StationaryRadioTransmittersDefaultTime"), (62300, "MovingRadioTransmittersDefaultTime"), (62400, "StationaryRadioSignalsDefaultTime"), (62500, "MovingRadioSignalDefaultTime"), (63101, "RadioInitializationTransecSecurityKey"), (63102, "RadioInitializationInternalNoiseLevel"), (63103, "RadioInitializationSquelchThreshold"), (63104, "RadioInitializationAntennaLocation"), (63105, "RadioInitializationAntennaPatternType"), (63106, "RadioInitializationAntennaPatternLength"), (63107, "RadioInitializationBeamDefinition"), (63108, "RadioInitializationTransmitHeartbeatTime"), (63109, "RadioInitializationTransmitDistanceThresholdVariableRecord"), (63110, "RadioChannelInitializationLockoutID"), (63111, "RadioChannelInitializationHopsetID"), (63112, "RadioChannelInitializationPresetFrequency"), (63113, "RadioChannelInitializationFrequencySyncTime"), (63114, "RadioChannelInitializationComsecKey"), (63115, "RadioChannelInitializationAlpha"), (70000, "AlgorithmParameters"), (71000, "DeadReckoningAlgorithm1"), (71100, "DRALocationThreshold"), (71200, "DRAOrientationThreshold"), (71300, "DRATimeThreshold"), (72000, "SimulationManagementParameters"), (72100, "CheckpointInterval"), (72600, "TransmitterTimeThreshold"), (72700, "ReceiverTimeThreshold"), (73000, "InteroperabilityMode"), (74000, "SIMNETDataCollection"), (75000, "EventID"), (75100, "SourceSiteID"), (75200, "SourceHostID"), (90000, "ArticulatedParts"), (90050, "PartID"), (90070, "Index"), (90100, "Position3"), (90200, "PositionRate"), (90300, "Extension"), (90400, "ExtensionRate"), (90500, "X3"), (90600, "Xrate"), (90700, "Y3"), (90800, "Yrate"), (90900, "Z3"), (91000, "Zrate"), (91100, "Azimuth2"), (91200, "AzimuthRate"), (91300, "Elevation"), (91400, "ElevationRate"), (91500, "Rotation2"), (91600, "RotationRate"), (100001, "DRAAngularXVelocity"), (100002, "DRAAngularYVelocity"), (100003, "DRAAngularZVelocity"), (100004, "AppearanceTrailingEffects"), (100005, "AppearanceHatch"), (100008, "AppearanceCharacterSet"), (100010, "CapabilityAmmunitionSupplier"), (100011, "CapabilityMiscellaneousSupplier"), (100012, "CapabilityRepairProvider"), (100014, "ArticulationParameter"), (100047, "ArticulationParameterType1"), (100048, "ArticulationParameterValue1"), (100058, "TimeofDayScene"), (100061, "LatitudeNorth"), (100063, "LongitudeEast"), (100068, "TacticalDriverStatus"), (100100, "SonarSystemStatus"), (100160, "Accomplishedaccept"), (100161, "Upperlatitude"), (100162, "LatitudeSouth"), (100163, "Westernlongitude"), (100164, "LongitudeWest"), (100165, "CDROMNumber"), (100166, "DTEDdiskID"), (100167, "Altitude3"), (100169, "TacticalSystemStatus"), (100170, "JTIDSStatus"), (100171, "TADILJStatus"), (100172, "DSDDStatus"), (100200, "WeaponSystemStatus"), (100205, "Subsystemstatus"), (100206, "Numberofinterceptorsfired"), (100207, "Numberofinterceptordetonations"), (100208, "Numberofmessagebuffersdropped"), (100213, "Satellitesensorbackground1"), (100214, "Satellitesensorbackground2"), (100218, "ScriptNumber"), (100300, "EntityTrackUpdateData"), (100400, "LocalForceTraining"), (100500, "EntityTrackIdentityData"), (100510, "EntityforTrackEvent"), (100520, "IFFstatus"), (100600, "EngagementData"), (100610, "TargetLatitude"), (100620, "TargetLongitude"), (100631, "AreaofInterestCenterLatitude"), (100632, "AreaofInterestCenterLongitude"), (100633, "AreaofInterestRadius"), (100634, "AreaofInterestType"), (100640, "TargetAggregateID"), (100650, "GICIdentificationNumber"), (100660, "EstimatedTimeofFlighttoTBMImpact"), (100661, "EstimatedInterceptTime"), (100662, "EstimatedTimeofFlighttoNextWaypoint"), (100700, "EntityTrackEquipmentData"), (100800, "EmissionEWData"), (100900, "AppearanceData"), (101000, "CommandOrderData"), (101100, "EnvironmentalData"), (101200, "SignificantEventData"), (101300, "OperatorActionData"), (101310, "ADAEngagementMode"), (101320, "ADAShootingStatus"), (101321, "ADAMode"), (101330, "ADARadarStatus"), (101340, "ShootCommand"), (101350, "ADAWeaponStatus"), (101360, "ADAFiringDisciple"), (101370, "OrderStatus"), (101400, "TimeSynchronization"), (101500, "TomahawkData"), (102100, "NumberofDetonations"), (102200, "NumberofIntercepts"), (200201, "OBTControlMT201"), (200202, "SensorDataMT202"), (200203, "EnvironmentalDataMT203"), (200204, "OwnshipDataMT204"), (200205, "AcousticContactDataMT205"), (200207, "SonobuoyDataMT207"), (200210, "SonobuoyContactDataMT210"), (200211, "HeloControlMT211"), (200213, "ESMControlData"), (200214, "ESMContactDataMT214"), (200215, "ESMEmitterDataMT215"), (200216, "WeaponDefinitionDataMT217"), (200217, "WeaponPresetDataMT217"), (200301, "OBTControlMT301"), (200302, "SensorDataMT302"), (200303, "EnvironmentalDataMT303m"), (200304, "OwnshipDataMT304"), (200305, "AcousticContactDataMT305"), (200307, "SonobuoyDataMT307"), (200310, "SonobuoyContactDataMT310"), (200311, "HeloScenarioEquipmentStatus"), (200313, "ESMControlDataMT313"), (200314, "ESMContactDataMT314"), (200315, "ESMEmitterDataMT315"), (200316, "WeaponDefinitionDataMT316"), (200317, "WeaponPresetDataMT317"), (200400, "PairingAssociation"), (200401, "Pointer"), (200402, "ReportingResponsibility"), (200403, "TrackNumber"), (200404, "IDforLink11Reporting"), (200405, "RemoteTrack"), (200406, "Link11ErrorRate"), (200407, "TrackQuality"), (200408, "Gridlock"), (200409, "Kill"), (200410, "TrackIDChangeResolution"), (200411, "WeaponsStatus"), (200412, "Link11Operator"), (200413, "ForceTrainingTransmit"), (200414, "ForceTrainingReceive"), (200415, "InterceptorAmplification1"), (200416, "Consumables1"), (200417, "Link11LocalTrackQuality"), (200418, "DLRP"), (200419, "ForceOrder"), (200420, "WilcoCantco"), (200421, "EMCBearing"), (200422, "ChangeTrackEligibility"), (200423, "LandMassReferencePoint"), (200424, "SystemReferencePoint"), (200425, "PUAmplification"), (200426, "SetDrift"), (200427, "BeginInitialization"), (200428, "StatusandControl"), (200429, "ScintillationChange"), (200430, "Link11IDControl"), (200431, "PUGuardList"), (200432, "WindsAloft"), (200433, "SurfaceWinds"), (200434, "SeaState"), (200435, "MagneticVariation"), (200436, "TrackEligibility"), (200437, "TrainingTrackNotification"), (200501, "TacanData"), (200502, "InterceptorAmplification2"), (200503, "TacanAssignment"), (200504, "AutopilotStatus"), (200505, "Consumables2"), (200506, "Downlink"), (200507, "TINReport"), (200508, "SpecialPointControl"), (200509, "ControlDiscretes"), (200510, "RequestTargetDiscretes"), (200511, "TargetDiscretes"), (200512, "ReplyDiscretes"), (200513, "CommandManeuvers"), (200514, "TargetData"), (200515, "TargetPointer"), (200516, "InterceptData"), (200517, "DecrementMissileInventory"), (200518, "Link4AAlert"), (200519, "StrikeControl"), (200521, "SpeedChange"), (200522, "CourseChange"), (200523, "AltitudeChange"), (200524, "ACLSANSPN46Status"), (200525, "ACLSAircraftReport"), (200600, "SPS67RadarOperatorFunctions"), (200601, "SPS55RadarOperatorFunctions"), (200602, "SPQ9ARadarOperatorFunctions"), (200603, "SPS49RadarOperatorFunctions"), (200604, "MK23RadarOperatorFunctions"), (200605, "SPS48RadarOperatorFunctions"), (200606, "SPS40RadarOperatorFunctions"), (200607, "MK95RadarOperatorFunctions"), (200608, "KillNoKill"), (200609, "CMTpc"), (200610, "CMC4AirGlobalData"), (200611, "CMC4GlobalData"), (200612, "LINKSIMCOMMENTPDU"), (200613, "NSSTOwnshipControl"), (240000, "Other"), (240001, "MassOfTheVehicle"), (240002, "ForceID3"), (240003, "EntityTypeKind"), (240004, "EntityTypeDomain"), (240005, "EntityTypeCountry"), (240006, "EntityTypeCategory"), (240007, "EntityTypeSubCategory"), (240008, "EntityTypeSpecific"), (240009, "EntityTypeExtra"), (240010, "AlternativeEntityTypeKind"), (240011, "AlternativeEntityTypeDomain"), (240012, "AlternativeEntityTypeCountry"), (240013, "AlternativeEntityTypeCategory"), (240014, "AlternativeEntityTypeSubCategory"), (240015, "AlternativeEntityTypeSpecific"), (240016, "AlternativeEntityTypeExtra"), (240017, "EntityLocationX"), (240018, "EntityLocationY"), (240019, "EntityLocationZ"), (240020, "EntityLinearVelocityX"), (240021, "EntityLinearVelocityY"), (240022, "EntityLinearVelocityZ"), (240023, "EntityOrientationPsi"), (240024, "EntityOrientationTheta"), (240025, "EntityOrientationPhi"), (240026, "DeadReckoningAlgorithm2"), (240027, "DeadReckoningLinearAccelerationX"), (240028, "DeadReckoningLinearAccelerationY"), (240029, "DeadReckoningLinearAccelerationZ"), (240030, "DeadReckoningAngularVelocityX"), (240031, "DeadReckoningAngularVelocityY"), (240032, "DeadReckoningAngularVelocityZ"), (240033, "EntityAppearance"), (240034, "EntityMarkingCharacterSet"), (240035, "EntityMarking11Bytes"), (240036, "Capability"), (240037, "NumberArticulationParameters"), (240038, "ArticulationParameterID"), (240039, "ArticulationParameterType2"), (240040, "ArticulationParameterValue2"), (240041, "TypeOfStores"), (240042, "QuantityOfStores"), (240043, "FuelQuantity"), (240044, "RadarSystemStatus"), (240045, "RadioCommunicationSystemStatus"), (240046, "DefaultTimeForRadioTransmissionForStationaryTransmitters"), (240047, "DefaultTimeForRadioTransmissionForMovingTransmitters"), (240048, "BodyPartDamagedRatio"), (240049, "NameOfTheTerrainDatabaseFile"), (240050, "NameOfLocalFile"), (240051, "AimpointBearing"), (240052, "AimpointElevation"), (240053, "AimpointRange"), (240054, "AirSpeed"), (240055, "Altitude"), (240056, "ApplicationStatus"), (240057, "AutoIff"), (240058, "BeaconDelay"), (240059, "BingoFuelSetting"), (240060, "CloudBottom"), (240061, "CloudTop"), (240062, "Direction"), (240063, "EndAction"), (240064, "Frequency"), (240065, "Freeze"), (240066, "Heading"), (240067, "Identification2"), (240068, "InitialPointData"), (240069, "Latitude2"), (240070, "Lights2"), (240071, "Linear"), (240072, "Longitude2"), (240073, "LowAltitude"), (240074, "MfdFormats"), (240075, "Nctr"), (240076, "NumberProjectiles"), (240077, "OperationCode"), (240078, "Pitch"), (240079, "Profiles"), (240080, "Quantity3"), (240081, "RadarModes"), (240082, "RadarSearchVolume"), (240083, "Roll"), (240084, "Rotation"), (240085, "ScaleFactorX"), (240086, "ScaleFactorY"), (240087, "Shields2"), (240088, "Steerpoint"), (240089, "Spare1"), (240090, "Spare2"), (240091, "Team"), (240092, "Text"), (240093, "TimeOfDay"), (240094, "TrailFlag"), (240095, "TrailSize"), (240096, "TypeOfProjectile"), (240097, "TypeOfTarget"), (240098, "TypeOfThreat"), (240099, "UhfFrequency"), (240100, "UtmAltitude"), (240101, "UtmLatitude"), (240102, "UtmLongitude"), (240103, "VhfFrequency"), (240104, "VisibilityRange"), (240105, "VoidAaaHit"), (240106, "VoidCollision"), (240107, "VoidEarthHit"), (240108, "VoidFriendly"), (240109, "VoidGunHit"), (240110, "VoidRocketHit"), (240111, "VoidSamHit"), (240112, "WeaponData"), (240113, "WeaponType"), (240114, "Weather2"), (240115, "WindDirection2"), (240116, "WindSpeed"), (240117, "WingStation"), (240118, "Yaw"), (240119, "MemoryOffset"), (240120, "MemoryData"), (240121, "VASI"), (240122, "Beacon"), (240123, "Strobe"), (240124, "Culture"), (240125, "Approach"), (240126, "RunwayEnd"), (240127, "Obstruction"), (240128, "RunwayEdge"), (240129, "RampTaxiway"), (240130, "LaserBombCode"), (240131, "RackType"), (240132, "HUD"), (240133, "RoleFileName"), (240134, "PilotName"), (240135, "PilotDesignation"), (240136, "ModelType"), (240137, "DISType"), (240138, "Class"), (240139, "Channel"), (240140, "EntityType2"), (240141, "AlternativeEntityType2"), (240142, "EntityLocation"), (240143, "EntityLinearVelocity"), (240144, "EntityOrientation"), (240145, "DeadReckoning"), (240146, "FailureSymptom"), (240147, "MaxFuel"), (240148, "RefuelingBoomConnect"), (240149, "AltitudeAGL"), (240150, "CalibratedAirspeed"), (240151, "TACANChannel1"), (240152, "TACANBand1"), (240153, "TACANMode1"), (270115, "FuelFlowRate"), (270116, "FuelTemperature"), (270117, "FuelPressure"), (270150, "SKESlot"), (270151, "SKELead"), (270152, "SKEFrequency"), (270153, "FCICmd"), (270154, "FCINum"), (270155, "SKEBitField"), (270156, "FormationPosition"), (270157, "FormationNumber"), (270158, "FFSModeActive"), (270159, "FFSRole"), (270160, "FFSVCAS"), (270161, "FFSBitField"), (270162, "FFSCallSign"), (270163, "FFSGuidanceData"), (270164, "FFSTextData"), (270165, "FFSAirdropRequestData"), (270166, "FFSAirdropData"), (300000, "HorizontalCircularErrorProbable"), (300001, "HorizontalPositionError"), (300002, "VerticalPositionError"), (300003, "HorizontalVelocityError"), (300004, "VerticalVelocityError"), (300005, "_4thLowestJammertoSignalRatioforP1"), (300006, "_4thLowestJammertoSignalRatioforP2"), (300007, "GPSFigureofMerit"), (300008, "WeaponTransferGPSState"), (300009, "WeaponTransferHorizontalPositionError"), (300010, "WeaponTransferVerticalPositionError1"), (300011, "WeaponTransferVerticalPositionError2"), (300012, "WeaponTransferHorizontalVelocityError"), (300013, "TimeTransferError"), (300014, "AgeofEphemeris"), (300016, "NonFlyoutMunitionEntityRequestDISTypeEnumeration"), (300017, "NonFlyoutMunitionEntityRequestLaunchPointX"), (300018, "NonFlyoutMunitionEntityRequestLaunchPointY"), (300019, "NonFlyoutMunitionEntityRequestLaunchPointZ"), (300020, "NonFlyoutMunitionEntityRequestMaximumAltitude"), (300021, "NonFlyoutMunitionEntityRequestFlightPath"), (300022, "NonFlyoutMunitionEntityRequestImpactPointX"), (300023, "NonFlyoutMunitionEntityRequestImpactPointY"), (300024, "NonFlyoutMunitionEntityRequestImpactPointZ"), (300025, "NonFlyoutMunitionEntityRequestElapsedFlightTime"), (300026, "NonFlyoutMunitionEntityRequestLaunchTime"), (300027, "TimeError"), (301100, "Link16CommandVariety1"), (301130, "Push"), (301140, "Rolex"), (301150, "TerminateIntercept"), (301151, "HealDamage"), (301152, "Destroy"), (301160, "TransferControlManagement"), (301170, "Link16ControlsPPLIEnable"), (301171, "Link16ControlsCommandControlEnable"), (301174, "Link16ReferencePointMessageInitiation"), (301175, "AssignExternalEntityLink16TrackNumber"), (301176, "Link16IntelligenceInfo"), (301177, "Link16TrackManagement"), (301178, "Link16ControlsCESGlobalPPLIPublish"), (301179, "Link16ControlsCESGlobalSurveillancePublish"), (301180, "RequestGlobalLink16Configuration"), (301181, "Link16ControlsSurveillanceEnable"), (301182, "Link16Pointer"), (301183, "Link16Vector"), (301184, "Link16ControlUnitChange"), (301185, "Link16Text"), (301186, "RequestLink16Objects"), (301187, "Link16RefObjectNameList"), (301189, "TotalNumberofPDUsinLink16RefObjectsResponse"), (301190, "PDUNumberinLink16RefObjectsResponse"), (301191, "TotalNumberofLink16RefObjects"), (301197, "Link16ControlsF2FAEnable"), (301198, "Link16ControlsF2FBEnable"), (301199, "STNofFormationLeader"), (301200, "FormationName"), (301201, "FormationRole"), (301202, "SurveillanceContributorSensorBasedDetection"), (301220, "F2FANPG"), (301221, "Link16ControlsF2FANet"), (301222, "F2FBNPG"), (301223, "Link16ControlsF2FBNet"), (301224, "SurveillanceEnabledNPB"), (301225, "SurveillanceEnabledNet"), (301226, "ControlUnitEnabled"), (301227, "ControlUnitEnabledNPG"), (301228, "ControlUnitEnabledNet"), (301229, "VoiceFrequency"), (301234, "Link16JTIDSVoiceCallsign"), (301237, "EntityIDofControlUnit"), (301238, "STNofControlUnit"), (301239, "NTRParticipationLevel"), (301240, "Link16ControlsCESGlobalPPLISubscribe"), (301241, "Link16ControlsCESGlobalSurveillanceSubscribe"), (301242, "NTRinMission"), (301243, "NTRMarking"), (301244, "NTRReceiptCompliance"), (301255, "FormationF2FNPG"), (301256, "FormationF2FChannel"), (400008, "JLVCLogReport"), (400009, "JLVCSupplyAdjust"), (400010, "JLVCEntityControl"), (400011, "JLVCHealthUpdate"), (400012, "JLVCRepairComplete"), (400013, "JLVCUnitActivation"), (400014, "JLVCBattleDamageRepair"), (400015, "JLVCMinefield"), (400016, "JLVCWire"), (400017, "JLVCAbatis"), (400018, "JLVCCrater"), (400019, "JLVCDitch"), (400020, "JLVCLanes"), (400021, "JLVCIED"), (400022, "JLVCRubble"), (400023, "JLVCSubmergedBarrier"), (400024, "JLVCFloatingBarrier"), (400025, "JLVCFoxhole"), (400026, "JLVCVehicleHole"), (400027, "JLVCVehicleFortification"), (400028, "JLVCSandbag"), (400029, "JLVCCheckpoint"), (400030, "JLVCContamCloud2D"), (400031, "JLVCPopulationEffect"), (400032, "JLVCMine"), (400033, "JLVCSeaMinefield"), (500001, "Munition"), (500002, "EngineFuel"), (500003, "StorageFuel"), (500004, "NotUsed"), (500005, "Expendable"), (500006, "TotalRecordSets"), (500007, "LaunchedMunition"), (500008, "Association"), (500009, "Sensor"), (500010, "MunitionReload"), (500011, "EngineFuelReload"), (500012, "StorageFuelReload"), (500013, "ExpendableReload"), (500014, "IFFChangeControlMode1Code"), (500015, "IFFChangeControlMode2Code"), (500016, "IFFChangeControlMode3Code"), (500017, "IFFChangeControlMode4Code"), (500018, "IFFChangeControlMode5Code"), (500019, "IFFChangeControlMode6Code"), (500021, "Link16Data"), (500022, "ARMAlert"), (500023, "IFFChangeControlModeOnOff"), (500024, "WeaponStatusData"), (500025, "ExpendableStatusData"), (500026, "TacticStatusData"), (500027, "EmitterSensorData"), (500028, "IOSControlData"), (500029, "StaticStatusData"), (500200, "RequestInactiveEntities"), (500201, "InactiveEntityQuantity"), (500202, "InactiveEntityID"), (500203, "InactiveEntityType"), (500204, "ActivationTriggerType"), (500205, "ActivationTriggerValue"), (551001, "AirtoAirMissileQty"), (551002, "AIM7MissileQty"), (551003, "AIM9MissileQty"), (551004, "AIM120MissileQty"), (551005, "AirtoGroundMissileQty"), (551006, "SurfacetoAirMissileQty"), (551007, "BulletQty1"), (552001, "ChaffQty"), (552002, "FlareQty"), (553001, "FuelLevel"), (553002, "RouteType"), (553003, "ThreatMode"), (553004, "TargetOccluded"), (553005, "TerrainHeight"), (553006, "EntityStatus"), (553007, "MarshalStatus"), (553008, "PowerPlantStatus"), (553009, "NavLightStatus"), (553010, "InteriorLightStatus"), (553011, "LandingLightStatus"), (553012, "FormationLightStatus"), (553013, "AntiCollisionLightStatus"), (553014, "NavFormationFlashRate"), (553015, "AntiColOnDuration"), (553016, "AntiColOffDuration"), (553017, "InterceptStatus"), (553018, "LifeFormSignalingDeviceType"), (553019, "LifeFormMovementType"), (553020, "LifeFormInVehicle"), (553021, "MobilityKill2"), (553022, "FirepowerKill"), (553028, "TankerEnabledDisabled"), (553029, "ThreatStatusTacticOKtoShootDownWeapons"), (554001, "TACANChannel2"), (554002, "TACANBand2"), (554003, "TACANMode2"), (554004, "RWRStatus"), (554005, "UHFRadioFrequency"), (554006, "EmitJammingStatus"), (554007, "EmitJammingType"), (554008, "ReceiveJammingStatus"), (554009, "RADARMode"), (554010, "AvailableRADARModes"), (554100, "JammerPodEnumeration"), (554101, "JammerPodBehavior"), (554102, "JammerPodPrograms"), (554103, "JammerPodReceiverSensitivity"), (554104, "JammerPodReceiverFrequencyMinimum"), (554105, "JammerPodReceiverFrequencyMaximum"), (554106, "JammerPodPower"), (554107, "JammerPodVariability"), (554108, "JammerPodNumberofFalseTargets"), (554109, "JammerPodJammerKnob"), (554110, "JammerPodMissileJamming"), (555001, "EmitterOverride2"), (555002, "JammerOverride"), (555003, "DisengageReengage2"), (555004, "HeadingOverride"), (555005, "AltitudeOverride"), (555006, "SpeedOverride"), (555007, "VerboseOverride"), (555008, "OcclusionOverride"), (556001, "CommitRange"), (556007, "CurrentScenarioIFFMode4ACodeforThisThreatsAffiliation"), (556008, "CurrentScenarioIFFMode4BCodeforThisThreatsAffiliation"), (556016, "OktoEngageWaypointNumber"), (556017, "MaxSpeedatSeaLevel"), (556018, "MaxSpeed"), (556019, "CurrentWaypointNumber"), (556020, "RouteInformation"), (556029, "ThreatStatusStaticMultiTargetTrack"), (557001, "AirAirIRMissileQty"), (557002, "AirAirRadarMissileQty"), (557003, "AirGroundIRMissileQty"), (557004, "AirGroundRadarMissileQty"), (557005, "AirGroundAntiRadiationMissileQty"), (557006, "AirGroundBombQty"), (557007, "AirGroundRocketQty"), (557008, "SurfaceAirIRMissileQty"), (557009, "SurfaceAirRadarMissileQty"), (557010, "BulletQty2"), (559001, "PPLIPublishEnabled"), (559002, "SurveillancePublishEnabled"), (559003, "NPG"), (559004, "NPGChannel"), (559005, "JTIDSTrackNumber"), (559006, "Link16ControlsSurveillanceReportable"), (559007, "Link16ControlsSurveillanceTrackQuality"), (559008, "Link16ControlsTargetPositionQuality"), (559009, "Link16ControlsQualityErrorType"), (559010, "Link16ControlsAffiliationDeterminationRule"), (559011, "Link16ControlsResetEntityAffiliation"), (559012, "Link16ControlsResetAllAffiliation"), (559999, "EndofMessages"), (600001, "MalfunctionActivateDeactivateSet"), (600002, "MalfunctionStatus"), (600210, "RequestJTIDSTrackNumbers"), (600212, "TrackNumbersvsEID"), (600214, "TotalNumberofJTIDSTrackNumbers"), (600215, "PDUNumberinJTIDSTrackNumberResponse"), (600216, "TotalNumberofPDUsinJTIDSTrackNumberResponse"), (600218, "AirtoAirRefuelerEntitiesRequest"), (600219, "AirtoAirRefuelingCount"), (600220, "AirToAirRefuelerEntity"), (600300, "FormationLibraryRequest"), (600301, "TotalNumberFormationLibraryPDUs1"), (600302, "PDUNumberinFormationLibraryResponse1"), (600303, "TotalNumberFormationLibraryItemsinPDU"), (600304, "FormationLibraryVariable"), (600305, "CreateRuntimeFormation"), (600306, "FormationRequestHeader"), (600307, "FormationPositionAbsolute"), (600308, "FormationPositionRelative"), (610006, "ExpendablesReload"), (610007, "PositionFreeze"), (610008, "ActivateOwnship"), (610009, "Chocks"), (610010, "WarmupCooldownOverride"), (610011, "GroundPower"), (610012, "ScrambleStart"), (610013, "OwnshipasaThreat"), (610015, "FuelExternal"), (610016, "FuelInternal"), (610017, "FuelTankTemp"), (610025, "GrossWeight"), (610026, "AngleOfAttack"), (610027, "GLoad"), (610029, "WeightOnWheels"), (610032, "StoredEnergySystemReload"), (610035, "KillOverride"), (610036, "ExpendablesFreeze"), (610037, "GPSSatellitesEnableDisable"), (610040, "OwnshipMessageDisplay"), (610042, "WeaponQuantityFreeze"), (610043, "GlobalControlFreezeWeaponsQuantityOnAllOwnships"), (610044, "GlobalControlFreezeFuelQuantityOnAllOwnships"), (610045, "GlobalControlFreezeKillOverrideOnAllOwnships"), (610046, "GlobalControlFreezeCrashOverrideOnAllOwnships"), (610047, "OwnshipOFPBlockNumber"), (610048, "WaypointInformationQuery"), (610049, "WaypointInformation"), (610050, "OwnshipSubsystemStatusData"), (613002, "CockpitSwitchStatus"), (613003, "IntegratedControlPanelMessages"), (613004, "ThrottlePositions"), (613005, "CurrentCriticalSwitchPosition"), (613006, "CorrectCriticalSwitchPosition"), (613007, "CurrentCriticalSwitchData"), (613008, "CorrectCriticalSwitchData"), (613013, "MissionInitialConditionsSet"), (613016, "GlobalControlMalfunctionActiveonAllOwnships"), (613017, "GlobalControlMalfunctionClearOnAllOwnships"), (613020, "ValidatedCriticalSwitchReport"), (613021, "SARMapPathname"), (613022, "ValidatedCriticalSwitchOwnshipID"), (613027, "LowerBoomEventReport"), (613028, "RaiseBoomEventReport"), (613029, "BreakawayEventReport"), (613030, "CompleteEventReport"), (613031, "AuxCommPanelFrequencyDisplay"), (615000, "NetworkStationInformation"), (615001, "GlobalControlSelectNetworkStation"), (615002, "NetworkStationUnderGlobalControl"), (615003, "GlobalControlStillControlling"), (615004, "GlobalControlReleaseControlofNetworkStation"), (615005, "GlobalControlFreezeWeaponQuantity"), (615006, "GlobalControlFreezeFuelQuantity"), (615007, "GlobalControlFreezeKillOverride"), (615008, "GlobalControlFreezeCrashOverride"), (615009, "GlobalControlMalfunctionActive"), (615010, "GlobalControlMalfunctionClear"), (615011, "GlobalControlStartDevices"), (615012, "GlobalControlFreezeDevices"), (615013, "GlobalControlJTIDSCommand"), (615015, "NetworkStationICSetInformation"), (615017, "GlobalControlResetICSet"), (615018, "NumberofControllingUnits"), (615019, "NetworkStationJTIDSControllingUnits"), (615020, "NetworkStationJTIDSObjectiveTracks"), (615021, "NumberofReferenceObjects"), (615022, "NetworkStationJTIDSReferenceObjects"), (615023, "NetworkedStationStillUnderControl"), (615024, "GlobalControlDeleteThreatEntities"), (615025, "NetworkStationOwnshipCallsigns"), (615026, "GlobalControlRequestFormationLibraryData"), (615027, "TotalNumberFormationLibraryPDUs2"), (615028, "PDUNumberinFormationLibraryResponse2"), (615029, "TotalNumberFormationLibraryItemsinPDUs"), (615030, "NetworkStationFormationLibraryItem"), (615031, "GlobalControlAddRelativeFormation"), (615032, "NetworkStationTICFilename"), (615033, "GlobalControlFreezeWarmupOverride"), (615034, "GlobalControlReloadSES"), (615035, "GlobalControlReloadWeapons"), (615036, "GlobalControlReloadExpendables"), (615037, "GlobalControlReloadFuel"), (615038, "GlobalControlReloadFirebottle"), (700000, "TestPattern"), (700001, "AudioTest"), (700002, "AudioTone"), (700003, "CalibrateThrottles"), (700004, "OperationalLimitsEventReport"), (700005, "OperationalLimits"), (1000620, "EventMarkerMessage"), (2000000, "ReceiverAircraftAeroModelData"), (2000010, "TankerAircraftAeroModelData"), (2000020, "BoomAircraftAeroModelData"), (2000030, "AccesstoImageGeneratorData1"), (2000031, "AccesstoImageGeneratorData2"), (2000032, "AccesstoImageGeneratorData3"), (2000033, "AccesstoImageGeneratorData4"), (2000034, "AccesstoImageGeneratorData5"), (2000035, "AccesstoImageGeneratorData6"), (2000036, "AccesstoImageGeneratorData7"), (2000037, "AccesstoImageGeneratorData8"), (2000038, "AccesstoImageGeneratorData9"), (2000039, "AccesstoImageGeneratorData10"), (2000040, "AccesstoImageGeneratorData11"), (2000041, "AccesstoImageGeneratorData12"), (2000042, "AccesstoImageGeneratorData13"), (2000043, "AccesstoImageGeneratorData14"), (2000044, "AccesstoImageGeneratorData15"), (2000045, "AccesstoImageGeneratorData16"), (2000050, "HostLoadNumber"), (5005001, "ExtendedFireEventReports"), (5005002, "BattleDamageAssessmentEventReport"), (5005003, "ExtendedFireEventLauncher"), (5005006, "ExtendedFireEventMissile"), (5005008, "ExtendedFireEventMRMWeapon"), (5005009, "ExtendedFireEventGunFireControl"), (5005010, "ExtendedFireEventBomb"), (5005011, "ExtendedFireEventExpendable"), (5005012, "BattleDamageAssessment"), (5005014, "ExtendedFirePickleEvent"), (5005055, "RadarTrackReport"), (5005060, "JammerReport"), (5005061, "JammerFalseTargetsReport"), (5005063, "DetectEventReport"), (5005070, "MALDBeamReport"), (5005080, "TransmitterRadiationVolume"), (5005081, "TransmitterRadiationVolumev2"), (5007010, "PhysicalNetworkDefinition"), (5007020, "NetworkChannelDefinition"), (5007030, "LogicalNetworkDefinition"), (5007040, "LogicalNetworkEntityDefinition"), (5007050, "PhysicalNetworkEntityDefinition"), (5008010, "C2Message"), (5008020, "CandidateObject"), (5008030, "SetofCandidateObjects"), (5008040, "BoundedRegion"), (5008050, "AngularRegion"), (5008060, "RoEObject"), (5008070, "TrackObject"), (5008080, "SetOfTrackObjects"), (5009010, "LogicalEntityDefinition"), (5009020, "LogicalEntityRelationshipDefinition"), (5507010, "IntentBasedEWMessage")] },
    EnumDef { name: "VariantsforAirCategory200Bird", width: 1, default: 1, values: &[(1, "BirdwithFish"), (2, "VPatternFlockShape"), (3, "CircularFlockShape"), (4, "IrregularFlockShape")] },
    EnumDef { name: "VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids", width: 1, default: 1, values: &[(1, "Black"), (2, "Green"), (3, "Spotted"), (4, "Red"), (5, "Brown")] },
    EnumDef { name: "VariantsforSubsurfaceCategory201Mammal", width: 1, default: 1, values: &[(1, "Singing"), (2, "Spouting")] },
];
/// (flag, its bits in the library, its assigned bits, the set read back from bits)
pub static FLAGS: &[FlagDef] = &[
    FlagDef { name: "LandPlatformAppearance::PaintScheme", bits: |v| if v { u64::from(LandPlatformAppearance::PaintScheme.as_u32()) } else { u64::from(LandPlatformAppearance::PaintScheme.bits()) }, assigned: 1, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::PaintScheme && x.contains(LandPlatformAppearance::PaintScheme)) },
    FlagDef { name: "LandPlatformAppearance::MobilityKilled", bits: |v| if v { u64::from(LandPlatformAppearance::MobilityKilled.as_u32()) } else { u64::from(LandPlatformAppearance::MobilityKilled.bits()) }, assigned: 2, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::MobilityKilled && x.contains(LandPlatformAppearance::MobilityKilled)) },
    FlagDef { name: "LandPlatformAppearance::FirePowerKilled", bits: |v| if v { u64::from(LandPlatformAppearance::FirePowerKilled.as_u32()) } else { u64::from(LandPlatformAppearance::FirePowerKilled.bits()) }, assigned: 4, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::FirePowerKilled && x.contains(LandPlatformAppearance::FirePowerKilled)) },
    FlagDef { name: "LandPlatformAppearance::Damage", bits: |v| if v { u64::from(LandPlatformAppearance::Damage.as_u32()) } else { u64::from(LandPlatformAppearance::Damage.bits()) }, assigned: 8, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::Damage && x.contains(LandPlatformAppearance::Damage)) },
    FlagDef { name: "LandPlatformAppearance::IsSmokeEmanating", bits: |v| if v { u64::from(LandPlatformAppearance::IsSmokeEmanating.as_u32()) } else { u64::from(LandPlatformAppearance::IsSmokeEmanating.bits()) }, assigned: 32, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::IsSmokeEmanating && x.contains(LandPlatformAppearance::IsSmokeEmanating)) },
    FlagDef { name: "LandPlatformAppearance::IsEngineEmittingSmoke", bits: |v| if v { u64::from(LandPlatformAppearance::IsEngineEmittingSmoke.as_u32()) } else { u64::from(LandPlatformAppearance::IsEngineEmittingSmoke.bits()) }, assigned: 64, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::IsEngineEmittingSmoke && x.contains(LandPlatformAppearance::IsEngineEmittingSmoke)) },
    FlagDef { name: "LandPlatformAppearance::TrailingDustCloud", bits: |v| if v { u64::from(LandPlatformAppearance::TrailingDustCloud.as_u32()) } else { u64::from(LandPlatformAppearance::TrailingDustCloud.bits()) }, assigned: 128, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::TrailingDustCloud && x.contains(LandPlatformAppearance::TrailingDustCloud)) },
    FlagDef { name: "LandPlatformAppearance::PrimaryHatch", bits: |v| if v { u64::from(LandPlatformAppearance::PrimaryHatch.as_u32()) } else { u64::from(LandPlatformAppearance::PrimaryHatch.bits()) }, assigned: 512, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::PrimaryHatch && x.contains(LandPlatformAppearance::PrimaryHatch)) },
    FlagDef { name: "LandPlatformAppearance::HeadLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::HeadLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::HeadLightsOn.bits()) }, assigned: 4096, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::HeadLightsOn && x.contains(LandPlatformAppearance::HeadLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::TailLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::TailLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::TailLightsOn.bits()) }, assigned: 8192, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::TailLightsOn && x.contains(LandPlatformAppearance::TailLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::BrakeLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::BrakeLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::BrakeLightsOn.bits()) }, assigned: 16384, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::BrakeLightsOn && x.contains(LandPlatformAppearance::BrakeLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::IsFlaming", bits: |v| if v { u64::from(LandPlatformAppearance::IsFlaming.as_u32()) } else { u64::from(LandPlatformAppearance::IsFlaming.bits()) }, assigned: 32768, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::IsFlaming && x.contains(LandPlatformAppearance::IsFlaming)) },
    FlagDef { name: "LandPlatformAppearance::LauncherOperational", bits: |v| if v { u64::from(LandPlatformAppearance::LauncherOperational.as_u32()) } else { u64::from(LandPlatformAppearance::LauncherOperational.bits()) }, assigned: 65536, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::LauncherOperational && x.contains(LandPlatformAppearance::LauncherOperational)) },
    FlagDef { name: "LandPlatformAppearance::CamouflageType", bits: |v| if v { u64::from(LandPlatformAppearance::CamouflageType.as_u32()) } else { u64::from(LandPlatformAppearance::CamouflageType.bits()) }, assigned: 131072, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::CamouflageType && x.contains(LandPlatformAppearance::CamouflageType)) },
    FlagDef { name: "LandPlatformAppearance::ConcealedPosition", bits: |v| if v { u64::from(LandPlatformAppearance::ConcealedPosition.as_u32()) } else { u64::from(LandPlatformAppearance::ConcealedPosition.bits()) }, assigned: 524288, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::ConcealedPosition && x.contains(LandPlatformAppearance::ConcealedPosition)) },
    FlagDef { name: "LandPlatformAppearance::IsFrozen", bits: |v| if v { u64::from(LandPlatformAppearance::IsFrozen.as_u32()) } else { u64::from(LandPlatformAppearance::IsFrozen.bits()) }, assigned: 2097152, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::IsFrozen && x.contains(LandPlatformAppearance::IsFrozen)) },
    FlagDef { name: "LandPlatformAppearance::PowerPlantOn", bits: |v| if v { u64::from(LandPlatformAppearance::PowerPlantOn.as_u32()) } else { u64::from(LandPlatformAppearance::PowerPlantOn.bits()) }, assigned: 4194304, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::PowerPlantOn && x.contains(LandPlatformAppearance::PowerPlantOn)) },
    FlagDef { name: "LandPlatformAppearance::State", bits: |v| if v { u64::from(LandPlatformAppearance::State.as_u32()) } else { u64::from(LandPlatformAppearance::State.bits()) }, assigned: 8388608, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::State && x.contains(LandPlatformAppearance::State)) },
    FlagDef { name: "LandPlatformAppearance::TentExtended", bits: |v| if v { u64::from(LandPlatformAppearance::TentExtended.as_u32()) } else { u64::from(LandPlatformAppearance::TentExtended.bits()) }, assigned: 16777216, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::TentExtended && x.contains(LandPlatformAppearance::TentExtended)) },
    FlagDef { name: "LandPlatformAppearance::RampExtended", bits: |v| if v { u64::from(LandPlatformAppearance::RampExtended.as_u32()) } else { u64::from(LandPlatformAppearance::RampExtended.bits()) }, assigned: 33554432, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::RampExtended && x.contains(LandPlatformAppearance::RampExtended)) },
    FlagDef { name: "LandPlatformAppearance::BlackoutLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::BlackoutLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::BlackoutLightsOn.bits()) }, assigned: 67108864, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::BlackoutLightsOn && x.contains(LandPlatformAppearance::BlackoutLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::BlackoutBrakeLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::BlackoutBrakeLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::BlackoutBrakeLightsOn.bits()) }, assigned: 134217728, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::BlackoutBrakeLightsOn && x.contains(LandPlatformAppearance::BlackoutBrakeLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::SpotSearchLight1On", bits: |v| if v { u64::from(LandPlatformAppearance::SpotSearchLight1On.as_u32()) } else { u64::from(LandPlatformAppearance::SpotSearchLight1On.bits()) }, assigned: 268435456, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::SpotSearchLight1On && x.contains(LandPlatformAppearance::SpotSearchLight1On)) },
    FlagDef { name: "LandPlatformAppearance::InteriorLightsOn", bits: |v| if v { u64::from(LandPlatformAppearance::InteriorLightsOn.as_u32()) } else { u64::from(LandPlatformAppearance::InteriorLightsOn.bits()) }, assigned: 536870912, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::InteriorLightsOn && x.contains(LandPlatformAppearance::InteriorLightsOn)) },
    FlagDef { name: "LandPlatformAppearance::OccupantsSurrendered", bits: |v| if v { u64::from(LandPlatformAppearance::OccupantsSurrendered.as_u32()) } else { u64::from(LandPlatformAppearance::OccupantsSurrendered.bits()) }, assigned: 1073741824, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::OccupantsSurrendered && x.contains(LandPlatformAppearance::OccupantsSurrendered)) },
    FlagDef { name: "LandPlatformAppearance::MaskedCloaked", bits: |v| if v { u64::from(LandPlatformAppearance::MaskedCloaked.as_u32()) } else { u64::from(LandPlatformAppearance::MaskedCloaked.bits()) }, assigned: 2147483648, back: |v| LandPlatformAppearance::from_u32(v as u32).is_some_and(|x| x == LandPlatformAppearance::MaskedCloaked && x.contains(LandPlatformAppearance::MaskedCloaked)) },
    FlagDef { name: "FrozenBehavior::RunSimulationClock", bits: |v| if v { u64::from(FrozenBehavior::RunSimulationClock.as_u8()) } else { u64::from(FrozenBehavior::RunSimulationClock.bits()) }, assigned: 1, back: |v| FrozenBehavior::from_u8(v as u8).is_some_and(|x| x == FrozenBehavior::RunSimulationClock && x.contains(FrozenBehavior::RunSimulationClock)) },
    FlagDef { name: "FrozenBehavior::TransmitUpdates", bits: |v| if v { u64::from(FrozenBehavior::TransmitUpdates.as_u8()) } else { u64::from(FrozenBehavior::TransmitUpdates.bits()) }, assigned: 2, back: |v| FrozenBehavior::from_u8(v as u8).is_some_and(|x| x == FrozenBehavior::TransmitUpdates && x.contains(FrozenBehavior::TransmitUpdates)) },
    FlagDef { name: "FrozenBehavior::ProcessUpdates", bits: |v| if v { u64::from(FrozenBehavior::ProcessUpdates.as_u8()) } else { u64::from(FrozenBehavior::ProcessUpdates.bits()) }, assigned: 4, back: |v| FrozenBehavior::from_u8(v as u8).is_some_and(|x| x == FrozenBehavior::ProcessUpdates && x.contains(FrozenBehavior::ProcessUpdates)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::PercentComplete", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::PercentComplete.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::PercentComplete.bits()) }, assigned: 1, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::PercentComplete && x.contains(ObjectStateAppearanceGeneral::PercentComplete)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::Damage", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::Damage.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::Damage.bits()) }, assigned: 256, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::Damage && x.contains(ObjectStateAppearanceGeneral::Damage)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::Predistributed", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::Predistributed.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::Predistributed.bits()) }, assigned: 1024, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::Predistributed && x.contains(ObjectStateAppearanceGeneral::Predistributed)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::State", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::State.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::State.bits()) }, assigned: 2048, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::State && x.contains(ObjectStateAppearanceGeneral::State)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::IsSmoking", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::IsSmoking.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::IsSmoking.bits()) }, assigned: 4096, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::IsSmoking && x.contains(ObjectStateAppearanceGeneral::IsSmoking)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::IsFlaming", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::IsFlaming.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::IsFlaming.bits()) }, assigned: 8192, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::IsFlaming && x.contains(ObjectStateAppearanceGeneral::IsFlaming)) },
    FlagDef { name: "ObjectStateAppearanceGeneral::IEDPresent", bits: |v| if v { u64::from(ObjectStateAppearanceGeneral::IEDPresent.as_u16()) } else { u64::from(ObjectStateAppearanceGeneral::IEDPresent.bits()) }, assigned: 16384, back: |v| ObjectStateAppearanceGeneral::from_u16(v as u16).is_some_and(|x| x == ObjectStateAppearanceGeneral::IEDPresent && x.contains(ObjectStateAppearanceGeneral::IEDPresent)) },
];
