package boofcv.struct;

public enum ConnectRule { FOUR("Four"), EIGHT("Eight"); final String s; ConnectRule(String s) { this.s = s; } public String getShortName() { return s; } }
