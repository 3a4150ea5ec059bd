@@item src/network/mod.rs :: Category [mod=vehicles; as=VehicleCategory; derive=Copy, Clone, PartialEq, Eq, Structural]
