package boofcv.struct;

public interface Configuration extends java.io.Serializable { void checkValidity(); }
