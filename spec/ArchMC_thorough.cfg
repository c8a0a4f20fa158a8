SPECIFICATION Spec
CONSTANTS Archs = {"TurbopropPropulsionSystem", "TwinTurbopropPropulsionSystem", "TwinSeriesHybridElectricPropulsionSystem", "SeriesHybridElectricPropulsionSystem", "SingleSeriesHybridElectricPropulsionSystem", "AllElectricSinglePropulsionSystemWithThermal_Incompressible", "AllElectricSinglePropulsionSystemWithThermal_Compressible", "TwinSeriesHybridElectricThermalPropulsionSystem", "TwinSeriesHybridElectricThermalPropulsionRefrigerated"}
          Throttles = {0, 20, 40, 80, 100, 120}
          Actives = {0, 25, 50, 100}
          Shares = {0, 10, 30, 50, 90, 100}
          Emit = TRUE
INVARIANTS NoDoubleDrive AllDriven Ledger Balanced Shared FailedIsOff Report
CHECK_DEADLOCK FALSE
