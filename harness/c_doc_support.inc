// What the project does not support of the standard, as its documentation says, and where it is
// more lenient or stricter than the schema (not judged).
inline const std::set<std::string> & unsupported_types()   // docs/developer_guide/OpenSCENARIOSupport.md: "unimplemented"
{
  static const std::set<std::string> s{
    "AbsoluteSpeed", "AbsoluteTargetLaneOffset", "ActivateControllerAction", "AngleCondition", "AngleType", "AnimationAction", 
    "AnimationFile", "AnimationState", "AnimationType", "AppearanceAction", "AutomaticGear", "AutomaticGearType", 
    "Brake", "BrakeInput", "ByObjectType", "CentralSwarmObject", "Clothoid", "ClothoidSpline", "ClothoidSplineSegment", 
    "CloudState", "Color", "ColorCmyk", "ColorRgb", "ColorType", "ComponentAnimation", "ConnectTrailerAction", 
    "ControlPoint", "ControllerDistribution", "ControllerDistributionEntry", "ControllerType", "CustomContent", 
    "DirectionOfTravelDistribution", "DirectionalDimension", "DisconnectTrailerAction", "EndOfRoadCondition", "EntityDistribution", 
    "EntityDistributionEntry", "ExternalObjectReference", "FinalSpeed", "Gear", "GeoPosition", "InRoutePosition", 
    "Knot", "Lane", "LaneOffsetAction", "LaneOffsetActionDynamics", "LaneOffsetTarget", "LateralDisplacement", 
    "LateralDistanceAction", "LightMode", "LightState", "LightStateAction", "LightType", "LogNormalDistribution", 
    "LongitudinalDisplacement", "LongitudinalDistanceAction", "ManualGear", "MonitorDeclaration", "MonitorDeclarations", 
    "Nurbs", "OffroadCondition", "OverrideBrakeAction", "OverrideClutchAction", "OverrideControllerValueAction", 
    "OverrideGearAction", "OverrideParkingBrakeAction", "OverrideSteeringWheelAction", "OverrideThrottleAction", 
    "PedestrianAnimation", "PedestrianGesture", "PedestrianGestureType", "PedestrianMotionType", "Polygon", "PositionInLaneCoordinates", 
    "PositionInRoadCoordinates", "PositionOfCurrentEntity", "RandomRouteAction", "RelativeAngleCondition", "RelativeLanePosition", 
    "RelativeRoadPosition", "RelativeSpeedToMaster", "RelativeTargetLaneOffset", "RoadCursor", "RoadPosition", 
    "RoadRange", "Role", "RoutePosition", "RouteRef", "ScenarioObjectTemplate", "SensorReference", "SensorReferenceSet", 
    "SetMonitorAction", "SteadyState", "SynchronizeAction", "TargetDistanceSteadyState", "TargetTimeSteadyState", 
    "TimeOfDayCondition", "TrafficAction", "TrafficArea", "TrafficAreaAction", "TrafficDefinition", "TrafficDistribution", 
    "TrafficDistributionEntry", "TrafficSignalGroupState", "TrafficSinkAction", "TrafficSourceAction", "TrafficStopAction", 
    "TrafficSwarmAction", "Trailer", "TrailerAction", "TrailerCoupler", "TrailerHitch", "TrajectoryPosition", "TraveledDistanceCondition", 
    "UsedArea", "UserDefinedAnimation", "UserDefinedComponent", "UserDefinedDistribution", "UserDefinedLight", 
    "VariableAction", "VariableAddValueRule", "VariableCondition", "VariableDeclaration", "VariableDeclarations", 
    "VariableModifyAction", "VariableModifyRule", "VariableMultiplyByValueRule", "VariableSetAction", "VehicleCategoryDistribution", 
    "VehicleCategoryDistributionEntry", "VehicleComponent", "VehicleComponentType", "VehicleLight", "VehicleLightType", 
    "VehicleRoleDistribution", "VehicleRoleDistributionEntry", "VisibilityAction", };
  return s;
}
inline const std::set<std::string> & unsupported_elements()
{
  static const std::set<std::string> s{"*/CatalogReference", "*/ParameterAssignments", "ParameterDeclaration/ConstraintGroup", "AssignControllerAction/ObjectController", "FollowTrajectoryAction/Trajectory"};
  return s;
}
inline const std::set<std::string> & unsupported_values()
{
  static const std::set<std::string> s{"ParameterType/int", "CoordinateSystem/world", "CoordinateSystem/road", "CoordinateSystem/trajectory", "DynamicsShape/sinusoidal", "MiscObjectCategory/vegetation", "MiscObjectCategory/wind", "PedestrianCategory/wheelchair", "MiscObjectCategory/barrier", "MiscObjectCategory/building", "MiscObjectCategory/crosswalk", "MiscObjectCategory/gantry", "MiscObjectCategory/none", "MiscObjectCategory/parkingSpace", "MiscObjectCategory/patch", "MiscObjectCategory/pole", "MiscObjectCategory/railing", "MiscObjectCategory/roadMark", "MiscObjectCategory/soundBarrier", "MiscObjectCategory/streetLamp", "MiscObjectCategory/trafficIsland", "MiscObjectCategory/tree",
     "ReferenceContext/absolute", "PedestrianCategory/animal", "RoutingAlgorithm/assignedRoute", "RoutingAlgorithm/fastest", "RoutingAlgorithm/leastIntersections", "RoutingAlgorithm/random", "RouteStrategy/fastest", "RouteStrategy/leastIntersections", "RouteStrategy/random"};
  return s;
}
// Required by the project (as by earlier versions of the standard), optional in version 1.3.
inline const std::set<std::string> & strict()
{
  static const std::set<std::string> s{
    "Vehicle/Axles", "Axles/FrontAxle", "Vehicle/Performance", "Vehicle/BoundingBox", "Pedestrian@model", "Pedestrian/BoundingBox", "MiscObject/BoundingBox", "AssignControllerAction/Controller",
    "Environment/TimeOfDay", "Environment/Weather", "Environment/RoadCondition", "RoadCondition@wetness", "Weather@atmosphericPressure", "Weather@temperature", "Weather@fractionalCloudCover",
    "Weather/Sun", "Weather/Fog", "Fog/BoundingBox", "Weather/DomeImage", "Weather/Precipitation", "Weather/Wind",
    "FollowTrajectoryAction@initialDistanceOffset", "FollowTrajectoryAction/TrajectoryRef", "TimeHeadwayCondition@alongRoute", "TimeToCollisionCondition@relativeDistanceType"};
  return s;
}
// Optional parts that are never written, and parts written at most once (further ones are ignored).
inline const std::set<std::string> & without()
{
  static const std::set<std::string> s{};
  return s;
}
inline const std::set<std::string> & single()
{
  static const std::set<std::string> s{"ScenarioObject/ObjectController"};
  return s;
}
// Not judged: read more leniently than the schema (a default), not read at all, or refused for a
// reason outside the document's structure (something else refers to what is removed).
inline const std::set<std::string> & tolerated()
{
  static const std::set<std::string> s{
    // defaults
    "Actors@selectTriggeringEntities", "Condition@delay", "ManeuverGroup@maximumExecutionCount", "Phase@duration", "ControllerAction/AssignControllerAction", "DomeImage/DomeFile", "Performance@maxAcceleration",
    "Performance@maxSpeed", "Performance@maxDeceleration", "LanePosition@roadId", "RelativeTargetSpeed@continuous", "SpeedProfileEntry@time", "RelativeTargetSpeed@speedTargetValueType", "RelativeSpeedCondition@direction", "Vertex@time", "Route@closed", "TrafficSignalController@reference", "TrafficSignalController@delay",
    // not read
    "Controller@controllerType=", "AssignControllerAction@activateLighting=", "AssignControllerAction@activateAnimation=", "AssignControllerAction@activateLateral=", "AssignControllerAction@activateLongitudinal=", "TransitionDynamics@followingMode=",
    "Vehicle@mass=", "AccelerationCondition@direction=", "SpeedCondition@direction=", "RelativeSpeedCondition@direction=", "TimeHeadwayCondition@coordinateSystem=", "TimeHeadwayCondition@alongRoute=", "TimeToCollisionCondition@alongRoute=", "DistanceCondition@alongRoute=", "Vehicle@role=", "Pedestrian@role=", "Weather@cloudState=",
    // referred to
    "Entities/ScenarioObject", "Storyboard/Story", "TrafficSignalController/Phase", "TrafficSignalController/Phase twice", "TrafficSignals/TrafficSignalController"};
  return s;
}
inline bool special_value(const std::string & owner, const std::string & name) { (void)owner; (void)name; return false; }
