SPECIFICATION Spec
CONSTANTS Archs = {"TurbopropPropulsionSystem", "TwinTurbopropPropulsionSystem", "TwinSeriesHybridElectricPropulsionSystem", "SeriesHybridElectricPropulsionSystem", "SingleSeriesHybridElectricPropulsionSystem", "AllElectricSinglePropulsionSystemWithThermal_Incompressible", "AllElectricSinglePropulsionSystemWithThermal_Compressible", "TwinSeriesHybridElectricThermalPropulsionSystem", "TwinSeriesHybridElectricThermalPropulsionRefrigerated"}
          Throttles = {0, 40, 100}
          Actives = {0, 50, 100}
          Shares = {0, 30, 100}
          Emit = TRUE
INVARIANTS NoDoubleDrive AllDriven Ledger Balanced Shared FailedIsOff Report
CHECK_DEADLOCK FALSE
